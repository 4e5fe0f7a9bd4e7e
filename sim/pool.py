"""Virtual process pools.

Workers are virtual processes executed one at a time; which worker proceeds is a seeded choice, taken before every task and
after every optimizer step. As between real processes, arguments and results are pickled, tensors travel through shared
memory (so both sides see the same storage), a forked worker starts with the random state of its parent and a spawned one
with that of a fresh interpreter.
"""
from __future__ import annotations
import concurrent.futures
import concurrent.futures.process
import io
import math
import multiprocessing
import multiprocessing.context
import os
import pickle
import random

import numpy as np
import torch
import torch.multiprocessing as tmp

from . import world as W
from .core import HarnessError, SimBudget, SimCrash, Violation
from .world import Proc, Scheduler

REALP = {}
FRESH_TORCH_SEED = 67280421310721


# -- shipping objects between processes ------------------------------------------------------------------------------
class _Pickler(pickle.Pickler):
    def __init__(self, file, table):
        super().__init__(file, protocol=4)
        self.table = table

    def reducer_override(self, obj):
        if isinstance(obj, torch.Tensor):
            if obj.requires_grad and not obj.is_leaf:
                raise RuntimeError(
                    "Cowardly refusing to serialize non-leaf tensor which requires_grad, since autograd does not support "
                    "crossing process boundaries."
                )
            self.table.append(obj)
            return _Fetch(len(self.table) - 1), ()
        if isinstance(obj, _Fetch):
            return NotImplemented
        return NotImplemented


class _WorkerDied(BaseException):
    """The worker process was killed from outside (no exception handler of it runs)."""


class _Fetch:
    tables: list = []

    def __init__(self, key):
        self.key = key

    def __call__(self):
        src = _Fetch.tables[-1][self.key]
        out = src.detach()
        if isinstance(src, torch.nn.Parameter):
            return torch.nn.Parameter(out, requires_grad=src.requires_grad)
        if src.requires_grad:
            out.requires_grad_(True)
        return out

    def __reduce__(self):
        return _Fetch, (self.key,)


def ship(obj):
    table: list = []
    buf = io.BytesIO()
    _Pickler(buf, table).dump(obj)
    _Fetch.tables.append(table)
    try:
        return pickle.loads(buf.getvalue())
    finally:
        _Fetch.tables.pop()


class PoolConfig:
    """What the simulated machine does to process pools."""

    def __init__(self, world, cpus=4, init_errors=0, task_faults=(), choose=None, init_kind="oserror"):
        self.world = world
        self.cpus = cpus
        self.init_errors = init_errors
        self.init_kind = init_kind
        self.task_faults = list(task_faults)      # {"task": n, "step": k or None, "kind": ...}
        self.choose = choose or (lambda names: 0)
        self.parent_interrupt = False             # the caller is interrupted while it waits for the workers
        self.created = 0
        self.task_counter = 0
        self.start_method = "fork"
        self.start_method_changes: list = []
        self.default_threads = torch.get_num_threads()
        self.open_pools: list = []
        self.max_workers_seen = 0
        self.order: list = []

    def boom(self, kind: str) -> BaseException:
        if kind == "memory":
            return MemoryError("simulated: out of memory in worker")
        if kind == "oom":
            return RuntimeError("simulated: DefaultCPUAllocator: can't allocate memory")
        if kind == "kbi":
            return KeyboardInterrupt()
        return OSError(12, "simulated: Cannot allocate memory")


class _Result:
    def __init__(self, pool, n):
        self.pool = pool
        self.values = [None] * n
        self.left = n
        self.error = None
        self.finished: list[int] = []
        self.single = False
        self.lost = False
        self.callback = self.error_callback = None

    def _done(self, i, ok, value):
        self.left -= 1
        self.finished.append(i)
        if ok:
            self.values[i] = value
        elif self.error is None:
            self.error = value
            self.errors = {i: value}
        if self.left == 0:
            if self.error is None and self.callback:
                self.callback(self.values[0] if self.single else self.values)
            elif self.error is not None and self.error_callback:
                self.error_callback(self.error)

    def wait(self, timeout=None):
        self.pool._run()
        if self.lost:
            raise SimBudget("a worker of the pool was killed, its task never completes and the caller waits forever")

    def ready(self):
        self.pool._run()
        return self.left == 0

    def successful(self):
        return self.error is None

    def get(self, timeout=None):
        self.pool._run()
        if self.lost:
            raise SimBudget("a worker of the pool was killed, its task never completes and the caller waits forever")
        if self.left:
            raise HarnessError("pool did not finish its tasks")
        if self.error is not None:
            raise self.error
        return self.values[0] if self.single else self.values


class SimPool:
    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None, method="fork"):
        w = W.WORLD
        cfg = w.pool
        self.world, self.cfg, self.method = w, cfg, method
        n = processes if processes is not None else cfg.cpus
        if n < 1:
            raise ValueError("Number of processes must be at least 1")
        cfg.created += 1
        w.run.ev("pool", cfg.created, method)
        if cfg.init_errors:
            cfg.init_errors -= 1
            w.run.fault("pool-init-" + cfg.init_kind)
            if cfg.init_kind == "memory":
                raise MemoryError("simulated: cannot fork")
            raise OSError(11, "simulated: Resource temporarily unavailable")
        self.workers = []
        for i in range(n):
            p = Proc(f"w{cfg.created}.{i}")
            p.isolated = True
            if method == "fork":
                p.rng = W.rng_snapshot()
                p.threads = torch.get_num_threads()
            else:
                g = torch.Generator()
                g.manual_seed(FRESH_TORCH_SEED)
                r = random.Random(w.names.getrandbits(64))
                p.rng = (g.get_state(), np.random.RandomState(r.getrandbits(32)).get_state(), r.getstate())
                p.threads = cfg.default_threads
            self.workers.append(p)
        cfg.max_workers_seen = max(cfg.max_workers_seen, n)
        self.queue: list = []
        self.closed = False
        self.initializer, self.initargs = initializer, initargs
        self.initialized: set = set()
        self.broken = False
        self.executor = False
        cfg.open_pools.append(self)

    # -- submitting ----------------------------------------------------------------------------------------------------
    def _submit(self, calls, chunksize=None):
        if self.closed:
            raise ValueError("Pool not running")
        calls = list(calls)
        res = _Result(self, len(calls))
        res.number = self.cfg.task_counter
        if chunksize is None:
            chunksize = max(1, math.ceil(len(calls) / (len(self.workers) * 4)))
        for s in range(0, len(calls), chunksize):
            part = []
            for i in range(s, min(s + chunksize, len(calls))):
                part.append((res, i, self.cfg.task_counter, calls[i]))
                self.cfg.task_counter += 1
            self.queue.append(part)
        return res

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        r = self._submit([(func, tuple(a), {}) for a in iterable], chunksize)
        r.callback, r.error_callback = callback, error_callback
        return r

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        r = self._submit([(func, (a,), {}) for a in iterable], chunksize)
        r.callback, r.error_callback = callback, error_callback
        return r

    def apply_async(self, func, args=(), kwds=None, callback=None, error_callback=None):
        r = self._submit([(func, tuple(args), dict(kwds or {}))], 1)
        r.single = True
        r.callback, r.error_callback = callback, error_callback
        return r

    def starmap(self, func, iterable, chunksize=None):
        return self.starmap_async(func, iterable, chunksize).get()

    def map(self, func, iterable, chunksize=None):
        return self.map_async(func, iterable, chunksize).get()

    def apply(self, func, args=(), kwds=None):
        return self.apply_async(func, args, kwds).get()

    def imap(self, func, iterable, chunksize=1):
        r = self.map_async(func, iterable, chunksize)
        self._run()
        for i in range(len(r.values)):
            if r.error is not None and i in r.errors:
                raise r.error
            yield r.values[i]

    def imap_unordered(self, func, iterable, chunksize=1):
        r = self.map_async(func, iterable, chunksize)
        self._run()
        for i in r.finished:
            if r.error is not None and i in r.errors:
                raise r.error
            yield r.values[i]

    # -- running -------------------------------------------------------------------------------------------------------
    def _run(self):
        if not self.queue:
            return
        w = self.world
        outer = w.sched
        w.sched = Scheduler(w, self.cfg.choose)
        for p in self.workers:
            w.sched.spawn(p.name, lambda p=p: self._worker(p), p)
        sched = w.sched
        try:
            sched.run()
        finally:
            w.sched = outer
            w.run.probe("pool-switches", sched.switches)
        for t in sched.tasks:
            if t.error is not None:
                raise t.error
        if w.pool.parent_interrupt:
            w.pool.parent_interrupt = False
            w.run.fault("parent-interrupt")
            raise KeyboardInterrupt("simulated")

    def _broken(self) -> BaseException:
        return concurrent.futures.process.BrokenProcessPool("simulated: a process in the process pool was terminated abruptly")

    def _die(self, p: Proc) -> None:
        """A worker was killed. An executor notices and kills the others. A Pool replaces it and waits for its task forever."""
        self.broken = True
        p.dead = True
        if self.executor:
            for q in self.workers:
                q.dead = True
            for part in self.queue:
                for res, i, _, _ in part:
                    res._done(i, False, self._broken())
            self.queue.clear()

    def _worker(self, p: Proc):
        w = self.world
        if self.initializer is not None and p.name not in self.initialized:
            self.initialized.add(p.name)
            self.initializer(*ship(self.initargs))
        while True:
            w.point("idle")
            if not self.queue:
                return
            part = self.queue.pop(0)
            # the calls of a chunk travel in one message, and so do their values: what they share stays shared between them
            try:
                calls = ship([call for *_, call in part])
            except BaseException as e:  # noqa: BLE001
                for res, i, number, _ in part:
                    self.cfg.order.append(number)
                    res._done(i, False, e)
                continue
            values = []
            for (res, i, number, _), call in zip(part, calls):
                try:
                    ok, value = self._task(p, number, *call)
                except SimCrash:
                    if not p.dead:
                        raise
                    self._die(p)
                    ok, value = False, self._broken()
                    if not self.executor:
                        res.lost = True
                self.cfg.order.append(number)
                if not ok:
                    break
                values.append(value)
                w.point("task done")
                if p.dead:
                    ok, value = False, self._broken()
                    break
            if ok:
                try:
                    values = ship(values)
                except BaseException as e:  # noqa: BLE001
                    ok, value = False, e
            for n, (res, i, *_) in enumerate(part):
                res._done(i, ok, values[n] if ok else value)
            if p.dead:
                return

    def _task(self, p, number, func, args, kwds):
        w, run = self.world, self.world.run
        run.ev("task", number, "on", p.name)
        run.ops["pool.task"] += 1
        hook = None
        for f in self.cfg.task_faults:
            if f["task"] == number and not f.get("fired"):
                left = [f.get("step")]

                def fire(f=f):
                    f["fired"] = True
                    run.fault("worker-" + f["kind"])
                    if f["kind"] == "killed":
                        p.dead = True
                        raise SimCrash("killed")
                    raise self.cfg.boom(f["kind"])

                if left[0] is None:
                    f["fired"] = True
                    run.fault("worker-" + f["kind"])
                    if f["kind"] == "killed":
                        p.dead = True
                        raise SimCrash("killed")
                    return False, self.cfg.boom(f["kind"])

                def hook(optimizer, f=f, left=left, fire=fire):
                    if w.proc is p and not f.get("fired"):
                        if left[0] <= 0:
                            fire()
                        left[0] -= 1
                w.step_hooks.append(hook)
        try:
            return True, func(*args, **kwds)
        except (SimCrash, SimBudget, HarnessError, Violation):
            raise
        except BaseException as e:  # noqa: BLE001
            return False, e
        finally:
            if hook is not None and hook in w.step_hooks:
                w.step_hooks.remove(hook)

    # -- life cycle ----------------------------------------------------------------------------------------------------
    def close(self):
        self._run()
        self.closed = True
        self._forget()

    def terminate(self):
        self.queue.clear()
        self.closed = True
        self._forget()

    def _forget(self):
        if self in self.cfg.open_pools:
            self.cfg.open_pools.remove(self)

    def join(self):
        if not self.closed:
            raise ValueError("Pool is still running")

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.terminate()


class SimContext:
    def __init__(self, method, real):
        self._method, self._real = method, real

    def Pool(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None):
        return SimPool(processes, initializer, initargs, maxtasksperchild, method=self._method)

    def cpu_count(self):
        return W.WORLD.pool.cpus

    def get_start_method(self, allow_none=False):
        return self._method

    def __getattr__(self, name):
        return getattr(self._real, name)


class SimExecutor(concurrent.futures.Executor):
    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), **kw):
        method = mp_context.get_start_method() if mp_context is not None else W.WORLD.pool.start_method
        self._pool = SimPool(max_workers, initializer, initargs, method=method)
        self._pool.executor = True
        self._pending = []
        self._down = False

    def submit(self, fn, /, *args, **kwargs):
        if self._pool.broken:
            raise self._pool._broken()
        fut = SimFuture(self)
        fut.result_ = self._pool.apply_async(fn, args, kwargs)
        return fut

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        return iter(self._pool.starmap(fn, list(zip(*iterables)), chunksize))

    def shutdown(self, wait=True, *, cancel_futures=False):
        if not self._down:
            self._down = True
            if cancel_futures:
                self._pool.terminate()
            else:
                self._pool.close()


class SimFuture:
    def __init__(self, ex):
        self.ex = ex
        self.result_ = None

    def result(self, timeout=None):
        return self.result_.get()

    def exception(self, timeout=None):
        self.result_.wait()
        return self.result_.error

    def done(self):
        return self.result_.ready()

    def running(self):
        return False

    def cancelled(self):
        return False

    def cancel(self):
        return False

    def add_done_callback(self, fn):
        self.result_.callback = self.result_.error_callback = lambda _: fn(self)


def _on():
    w = W.WORLD
    return w is not None and w.pool is not None


def install() -> None:
    REALP.update(
        tpool=tmp.Pool, pool=multiprocessing.Pool, tget=tmp.get_context, get=multiprocessing.get_context,
        tset=tmp.set_start_method, set=multiprocessing.set_start_method, tcount=tmp.cpu_count,
        count=multiprocessing.cpu_count, oscount=os.cpu_count, ppe=concurrent.futures.ProcessPoolExecutor,
        asc=concurrent.futures.as_completed, wait=concurrent.futures.wait, tgsm=tmp.get_start_method, gsm=multiprocessing.get_start_method,
    )

    def mk_pool(real):
        def Pool(processes=None, initializer=None, initargs=(), maxtasksperchild=None):
            if _on():
                return SimPool(processes, initializer, initargs, maxtasksperchild, method=W.WORLD.pool.start_method)
            return REALP[real](processes, initializer, initargs, maxtasksperchild)
        return Pool

    tmp.Pool = mk_pool("tpool")
    multiprocessing.Pool = mk_pool("pool")

    def mk_ctx(real):
        def get_context(method=None):
            ctx = REALP[real](method)
            if _on():
                return SimContext(method or W.WORLD.pool.start_method, ctx)
            return ctx
        return get_context

    tmp.get_context = mk_ctx("tget")
    multiprocessing.get_context = mk_ctx("get")

    def mk_set(real):
        def set_start_method(method, force=False):
            if _on():
                W.WORLD.pool.start_method_changes.append(method)
                if method is not None:
                    W.WORLD.pool.start_method = method
                return None
            return REALP[real](method, force)
        return set_start_method

    tmp.set_start_method = mk_set("tset")
    multiprocessing.set_start_method = mk_set("set")

    def mk_gsm(real):
        def get_start_method(allow_none=False):
            if _on():
                return W.WORLD.pool.start_method
            return REALP[real](allow_none)
        return get_start_method

    tmp.get_start_method = mk_gsm("tgsm")
    multiprocessing.get_start_method = mk_gsm("gsm")

    def mk_count(real):
        def cpu_count():
            if _on():
                return W.WORLD.pool.cpus
            return REALP[real]()
        return cpu_count

    tmp.cpu_count = mk_count("tcount")
    multiprocessing.cpu_count = mk_count("count")
    os.cpu_count = mk_count("oscount")

    class ProcessPoolExecutor:
        def __new__(cls, *a, **k):
            if _on():
                return SimExecutor(*a, **k)
            return REALP["ppe"](*a, **k)

    concurrent.futures.ProcessPoolExecutor = ProcessPoolExecutor

    def as_completed(fs, timeout=None):
        if _on():
            fs = list(fs)
            for f in fs:
                f.result_.wait()
            order = {n: k for k, n in enumerate(W.WORLD.pool.order)}
            return iter(sorted(set(fs), key=lambda f: (order.get(f.result_.number, math.inf), f.result_.number)))
        return REALP["asc"](fs, timeout)

    concurrent.futures.as_completed = as_completed

    def wait(fs, timeout=None, return_when=concurrent.futures.ALL_COMPLETED):
        if _on():
            fs = set(fs)
            for f in fs:
                f.result_.wait()
            return concurrent.futures._base.DoneAndNotDoneFutures(fs, set())
        return REALP["wait"](fs, timeout, return_when)

    concurrent.futures.wait = wait
