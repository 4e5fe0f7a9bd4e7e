"""Dispatchers over library entry points. Installed once, before irtorch is imported.

Each dispatcher calls the original function unless a simulated world is active and the call concerns it.
"""
from __future__ import annotations
import builtins
import copyreg
import io
import multiprocessing
import os
import pathlib
import random
import shutil
import tempfile
import time
import urllib.request
import uuid

import torch
import torch.multiprocessing as tmp

from . import world as W
from .core import SimCrash
from .fs import REAL, SimRaw

_installed = False


def fs():
    w = W.WORLD
    return None if w is None else w.fs


def install() -> None:
    global _installed
    if _installed:
        return
    _installed = True
    REAL.update(
        io_open=io.open, os_open=os.open, os_write=os.write, os_close=os.close, fsync=os.fsync, fdatasync=os.fdatasync,
        replace=os.replace, rename=os.rename, unlink=os.unlink, remove=os.remove, makedirs=os.makedirs, mkdir=os.mkdir,
        rmdir=os.rmdir, fdopen=os.fdopen, link=os.link, symlink=os.symlink, truncate=os.truncate, mkdtemp=tempfile.mkdtemp,
        torch_save=torch.save, urlretrieve=urllib.request.urlretrieve, urlopen=urllib.request.urlopen, uuid4=uuid.uuid4,
        time=time.time, perf_counter=time.perf_counter, sleep=time.sleep, expanduser=os.path.expanduser,
        names=tempfile._get_candidate_names, gettempdir=tempfile.gettempdir,
    )
    _install_fs()
    _install_net()
    _install_time()
    from . import pool
    pool.install()
    from torch.optim.optimizer import register_optimizer_step_post_hook, register_optimizer_step_pre_hook
    register_optimizer_step_pre_hook(_before_step)
    register_optimizer_step_post_hook(_after_step)
    _install_plateau()


def _install_fs() -> None:
    def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        f = fs()
        if f is not None:
            if isinstance(file, int):
                if file in f.fds:
                    return f.open(file, mode, buffering, encoding, errors, newline, closefd, opener)
            elif f.inside(file) is not None and (opener is None) :
                return f.open(file, mode, buffering, encoding, errors, newline, closefd, opener)
            elif opener is not None:
                fd = opener(file, f._flags(mode))
                return sim_open(fd, mode, buffering, encoding, errors, newline, closefd)
        return REAL["io_open"](file, mode, buffering, encoding, errors, newline, closefd, opener)

    builtins.open = sim_open
    io.open = sim_open

    def os_open(path, flags, mode=0o777, *, dir_fd=None):
        f = fs()
        if f is not None and dir_fd is None and not (flags & os.O_DIRECTORY):
            p = f.inside(path)
            if p is not None and not os.path.isdir(p):
                if flags & os.O_EXCL and os.path.lexists(p):
                    raise FileExistsError(17, "File exists", path)
                raw = SimRaw(f, p, "rb+" if flags & os.O_RDWR else ("wb" if flags & os.O_WRONLY else "rb"), flags=flags, perm=mode)
                _keep[raw.fd] = raw
                return raw.fd
        return REAL["os_open"](path, flags, mode, dir_fd=dir_fd)

    _keep: dict = {}

    def os_write(fd, data):
        f = fs()
        if f is not None and fd in f.fds:
            return f.fds[fd].write(data)
        return REAL["os_write"](fd, data)

    def os_close(fd):
        f = fs()
        if f is not None and fd in f.fds:
            raw = f.fds[fd]
            _keep.pop(fd, None)
            raw.close()
            if fd not in f.fds:
                return None
            f.fds.pop(fd, None)
            return REAL["os_close"](fd)
        return REAL["os_close"](fd)

    def sync(name):
        def inner(fd):
            f = fs()
            n = fd if isinstance(fd, int) else fd.fileno()
            if f is not None:
                if n in f.fds:
                    f.fds[n].fsync()
                    return None
                try:
                    p = os.readlink(f"/proc/self/fd/{n}")
                except OSError:
                    p = ""
                if p and f.inside(p) is not None and os.path.isdir(p):
                    f.op("fsync", p)
                    f.sync_dir()
                    return None
            return REAL[name](fd)
        return inner

    def two(name, kind):
        def inner(src, dst, *a, **k):
            f = fs()
            if f is not None:
                s, d = f.inside(src), f.inside(dst)
                if s is not None and d is not None:
                    res = f.op(kind, s)
                    REAL[name](s, d, *a, **k)
                    f.renamed(s, d)
                    f.after(res, f.world.proc)
                    return None
                if s is not None or d is not None:
                    raise OSError(18, "Invalid cross-device link", str(src))
            return REAL[name](src, dst, *a, **k)
        return inner

    def one(name, kind):
        def inner(path, *a, **k):
            f = fs()
            if f is not None and k.get("dir_fd") is None and not isinstance(path, int):
                p = f.inside(path)
                if p is not None:
                    res = f.op(kind, p)
                    REAL[name](p, *a, **k)
                    if kind == "unlink":
                        f.unlinked(p)
                    f.after(res, f.world.proc)
                    return None
            return REAL[name](path, *a, **k)
        return inner

    os.open = os_open
    os.write = os_write
    os.close = os_close
    os.fsync = sync("fsync")
    os.fdatasync = sync("fdatasync")
    os.replace = two("replace", "rename")
    os.rename = two("rename", "rename")
    os.unlink = one("unlink", "unlink")
    os.remove = one("remove", "unlink")
    os.mkdir = one("mkdir", "mkdir")
    os.rmdir = one("rmdir", "rmdir")
    shutil._USE_CP_SENDFILE = False
    shutil._use_fd_functions = False

    def torch_save(obj, f, *a, **k):
        """The container is produced by the real torch.save and then written like any other file of the process."""
        sim = fs()
        if sim is not None:
            if isinstance(f, (str, os.PathLike)):
                if sim.inside(f) is not None:
                    buf = io.BytesIO()
                    REAL["torch_save"](obj, buf, *a, **k)
                    with io.open(f, "wb") as out:
                        _stream(sim, out, buf.getvalue())
                    return None
            elif hasattr(f, "write") and not isinstance(f, io.BytesIO):
                buf = io.BytesIO()
                REAL["torch_save"](obj, buf, *a, **k)
                _stream(sim, f, buf.getvalue())
                return None
        return REAL["torch_save"](obj, f, *a, **k)

    torch.save = torch_save
    torch.serialization.save = torch_save

    def expanduser(path):
        f = fs()
        if f is not None:
            p = os.fspath(path)
            if isinstance(p, str) and (p == "~" or p.startswith("~/")):
                return os.path.join(f.root, "home") + p[1:]
        return REAL["expanduser"](path)

    os.path.expanduser = expanduser

    def uuid4():
        w = W.WORLD
        if w is not None:
            return uuid.UUID(int=w.names.getrandbits(128), version=4)
        return REAL["uuid4"]()

    uuid.uuid4 = uuid4

    class Names:
        def __iter__(self):
            return self

        def __next__(self):
            return "".join(W.WORLD.names.choice("abcdefghijklmnopqrstuvwxyz0123456789_") for _ in range(8))

    def candidate_names():
        if W.WORLD is not None:
            return Names()
        return REAL["names"]()

    tempfile._get_candidate_names = candidate_names

    def gettempdir():
        f = fs()
        if f is not None:
            return os.path.join(f.root, "tmp")
        return REAL["gettempdir"]()

    tempfile.gettempdir = gettempdir


def _stream(sim, out, data: bytes) -> None:
    chunk = max(1, sim.run.plan.get("save_chunk", 4096))
    for i in range(0, len(data), chunk):
        part = data[i:i + chunk]
        while part:
            n = out.write(part)
            part = part[len(part) if n is None else n:]


def _install_net() -> None:
    def urlretrieve(url, filename=None, reporthook=None, data=None):
        w = W.WORLD
        if w is not None and w.net is not None:
            return w.net.urlretrieve(url, filename, reporthook, data)
        return REAL["urlretrieve"](url, filename, reporthook, data)

    def urlopen(url, data=None, *a, **k):
        w = W.WORLD
        if w is not None and w.net is not None:
            return w.net.urlopen(url, data)
        return REAL["urlopen"](url, data, *a, **k)

    urllib.request.urlretrieve = urlretrieve
    urllib.request.urlopen = urlopen


def _install_time() -> None:
    def now(name):
        def inner():
            w = W.WORLD
            if w is not None and w.clock is not None:
                return w.clock()
            return REAL[name]()
        return inner

    time.time = now("time")
    time.perf_counter = now("perf_counter")

    def sleep(seconds):
        w = W.WORLD
        if w is not None:
            w.run.tick(seconds)
            w.point("sleep")
            return None
        return REAL["sleep"](seconds)

    time.sleep = sleep


def _install_plateau() -> None:
    from torch.optim.lr_scheduler import ReduceLROnPlateau
    real = ReduceLROnPlateau.step

    def step(self, metrics, *a, **k):
        w = W.WORLD
        before = [g["lr"] for g in self.optimizer.param_groups]
        out = real(self, metrics, *a, **k)
        if w is not None and w.plateau is not None:
            w.plateau(float(metrics), before, [g["lr"] for g in self.optimizer.param_groups])
        return out

    ReduceLROnPlateau.step = step


def _before_step(optimizer, args, kwargs) -> None:
    if W.WORLD is not None:
        for hook in list(W.WORLD.pre_step_hooks):
            hook(optimizer)


def _after_step(optimizer, args, kwargs) -> None:
    w = W.WORLD
    if w is None:
        return
    w.counters["optimizer_steps"] += 1
    w.run.tick(0.01)
    for hook in list(w.step_hooks):
        hook(optimizer)
    w.point("step")
    if w.proc.dead:
        raise SimCrash("dead")
