"""Simulated disk.

Files below the root of the simulated disk are real files in a scratch directory, so that everything that reads them works
unchanged. Every system call on them goes through ``FS.op``, which is where the scheduler may switch, a process may die, an
error may be returned, or a write may be cut short. What would survive a power loss is tracked separately: file content up
to the last fsync plus a torn part of what came later, and a prefix of the directory operations.
"""
from __future__ import annotations
import errno
import io
import os
import random
import shutil

from .core import SimCrash

REAL = {}          # the original functions, filled by seams.install()


class Inode:
    __slots__ = ("id", "data", "durable", "writes")

    def __init__(self, ident: int, data: bytes = b""):
        self.id = ident
        self.data = bytearray(data)
        self.durable = bytes(data)
        self.writes: list[tuple] = []      # since the last fsync: ("w", offset, bytes) or ("t", size)


class FS:
    def __init__(self, world, root: str):
        self.world = world
        self.run = world.run
        self.root = os.path.realpath(root)
        self.names: dict[str, Inode] = {}           # path -> inode, as the kernel sees it
        self.base: dict[str, Inode] = {}            # path -> inode, as of the last synced journal
        self.journal: list[tuple] = []
        self.next = 0
        self.fds: dict[int, "SimRaw"] = {}
        self.canon: dict[str, str] = {}
        self.count_reads = True
        self.total_ops = 0
        self.max_ops = 20000

    # -- paths -------------------------------------------------------------------------------------------------------
    def inside(self, path) -> str | None:
        try:
            p = os.fspath(path)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        p = os.path.abspath(p)
        d, b = os.path.split(p)
        p = os.path.join(os.path.realpath(d), b)
        if p == self.root or p.startswith(self.root + os.sep):
            return p
        return None

    def show(self, path: str) -> str:
        """A name for the trace that does not depend on randomly named files."""
        rel = os.path.relpath(path, self.root)
        return self.canon.setdefault(rel, f"p{len(self.canon)}")

    # -- one system call ---------------------------------------------------------------------------------------------
    def op(self, kind: str, path: str, size: int = 0):
        """Returns None, or ("partial", n, exception or None) for writes that only partly happen."""
        w = self.world
        proc = w.proc
        if proc.dead:
            raise SimCrash(f"{proc.name} is dead")
        w.point(kind)
        proc = w.proc
        if proc.dead:
            raise SimCrash(f"{proc.name} is dead")
        at = proc.ops
        proc.ops += 1
        self.total_ops += 1
        if self.total_ops > self.max_ops:
            from .core import SimBudget
            raise SimBudget("too many file operations")
        self.run.tick(1e-4 + size * 1e-8)
        self.run.ops["fs." + kind] += 1
        self.run.ev(proc.name, "op", at, kind, self.show(path), f"2^{size.bit_length()}")   # pickles contain addresses, so their sizes vary slightly
        if proc.sticky == "full" and kind in ("write", "create", "mkdir"):
            self.run.fault("disk-full")
            if kind == "write":
                return ("partial", 0, OSError(errno.ENOSPC, "No space left on device"))
            raise OSError(errno.ENOSPC, "No space left on device", path)
        if proc.sticky == "readerror" and kind == "read":
            self.run.fault("eio-read")
            raise OSError(errno.EIO, "Input/output error")
        for f in proc.faults:
            if f["at"] != at or f.get("fired"):
                continue
            f["fired"] = True
            return self._inject(proc, f, kind, path, size)
        return None

    def _inject(self, proc, f, kind, path, size):
        k = f["kind"]
        part = int(f.get("frac", 0.5) * size) if size else 0
        self.run.state("fault", k, kind)
        if k in ("crash", "power"):
            self.run.fault("process-crash" if k == "crash" else "power-loss")
            if kind == "write":
                self.run.fault("torn-write")
                return ("partial", part, SimCrash("killed"))
            if f.get("after") and kind in ("rename", "fsync", "create", "unlink", "mkdir"):
                return ("after", None, SimCrash("killed"))
            proc.dead = True
            raise SimCrash("killed")
        if k == "kbi":
            self.run.fault("interrupt")
            if kind == "write":
                return ("partial", part, KeyboardInterrupt())
            raise KeyboardInterrupt()
        if k in ("enospc", "full"):
            if kind in ("write", "create", "mkdir", "fsync", "truncate"):
                self.run.fault("enospc")
                if k == "full":
                    proc.sticky = "full"
                err = OSError(errno.ENOSPC, "No space left on device", path)
                if kind == "write":
                    return ("partial", part, err)
                raise err
            f["at"] += 1
            f["fired"] = False
            return None
        if k == "eio":
            self.run.fault("eio-" + kind)
            err = OSError(errno.EIO, "Input/output error", path)
            if kind == "write":
                return ("partial", part, err)
            raise err
        if k == "eacces":
            if kind in ("create", "open", "rename", "mkdir", "unlink"):
                self.run.fault("eacces")
                raise PermissionError(errno.EACCES, "Permission denied", path)
            f["at"] += 1
            f["fired"] = False
            return None
        if k == "short":
            if kind == "write" and size > 1:
                self.run.fault("short-write")
                return ("partial", max(1, part), None)
            if kind == "read":
                self.run.fault("short-read")
                return ("partial", 1, None)
            f["at"] += 1
            f["fired"] = False
            return None
        raise ValueError(k)

    def after(self, res, proc):
        if res is not None and res[0] == "after":
            proc.dead = True
            raise res[2]

    # -- bookkeeping of what is where --------------------------------------------------------------------------------
    def inode(self, data: bytes = b"") -> Inode:
        self.next += 1
        return Inode(self.next, data)

    def adopt(self) -> None:
        """Take the scratch directory as it is and regard all of it as stored safely."""
        self.names = {}
        for d, _, files in os.walk(self.root):
            for name in files:
                p = os.path.join(d, name)
                if os.path.islink(p):
                    continue
                with REAL["io_open"](p, "rb") as fh:
                    self.names[p] = self.inode(fh.read())
        self.base = dict(self.names)
        self.journal = []

    def created(self, path: str) -> Inode:
        ino = self.inode()
        ino.durable = b""
        self.names[path] = ino
        self.journal.append(("create", path, ino))
        return ino

    def renamed(self, src: str, dst: str) -> None:
        moved = [(p, i) for p, i in self.names.items() if p == src or p.startswith(src + os.sep)]
        for p, i in moved:
            self.names.pop(p)
            self.names[dst + p[len(src):]] = i
        self.journal.append(("rename", src, dst))

    def unlinked(self, path: str) -> None:
        self.names.pop(path, None)
        self.journal.append(("unlink", path))

    def sync_dir(self) -> None:
        self.base = dict(self.names)
        self.journal = []

    # -- power loss --------------------------------------------------------------------------------------------------
    def lose_power(self, seed) -> None:
        """Leave on disk only what a power loss at this point may leave."""
        r = random.Random(seed)
        names = dict(self.base)
        # biased towards "everything" and "nothing" of the unsynced directory operations
        n = len(self.journal)
        k = r.choice([0, n, n, r.randint(0, n)])
        for rec in self.journal[:k]:
            if rec[0] == "create":
                names[rec[1]] = rec[2]
            elif rec[0] == "rename":
                for p in [p for p in names if p == rec[1] or p.startswith(rec[1] + os.sep)]:
                    names[rec[2] + p[len(rec[1]):]] = names.pop(p)
            else:
                names.pop(rec[1], None)
        out: dict[str, bytes] = {}
        seen: dict[int, bytes] = {}
        for p, ino in names.items():
            if ino.id not in seen:
                seen[ino.id] = self._torn(ino, r)
            out[p] = seen[ino.id]
        for d, _, files in os.walk(self.root):
            for name in files:
                if not os.path.islink(os.path.join(d, name)):
                    REAL["unlink"](os.path.join(d, name))
        for p, data in out.items():
            real_makedirs(os.path.dirname(p))
            with REAL["io_open"](p, "wb") as fh:
                fh.write(data)
        self.adopt()

    @staticmethod
    def _torn(ino: Inode, r: random.Random) -> bytes:
        if not ino.writes:
            return bytes(ino.durable)
        how = r.choice(["none", "all", "prefix", "holes", "zeros"])
        data = bytearray(ino.durable)
        if how == "none":
            return bytes(data)
        writes = ino.writes if how != "prefix" else ino.writes[: r.randint(0, len(ino.writes))]
        for i, wr in enumerate(writes):
            if wr[0] == "t":
                if len(data) > wr[1]:
                    del data[wr[1]:]
                else:
                    data.extend(b"\0" * (wr[1] - len(data)))
                continue
            _, off, chunk = wr
            if len(data) < off + len(chunk):
                data.extend(b"\0" * (off + len(chunk) - len(data)))
            if how == "zeros":
                continue
            if how == "holes" and r.random() < 0.5:
                continue
            if how == "prefix" and i == len(writes) - 1:
                chunk = chunk[: r.randint(0, len(chunk))]
            data[off:off + len(chunk)] = chunk
        return bytes(data)

    # -- opening -----------------------------------------------------------------------------------------------------
    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if isinstance(file, int):
            raw = self.fds.get(file)
            if raw is None:
                return REAL["io_open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
            raw.set_mode(mode)
            raw.own_fd = closefd
        else:
            if opener is not None:
                flags = self._flags(mode)
                fd = opener(file, flags)
                return self.open(fd, mode, buffering, encoding, errors, newline)
            path = os.path.realpath(self.inside(file))
            raw = SimRaw(self, path, mode)
        binary = "b" in mode
        if buffering == 0:
            if not binary:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        size = self.buffer_size() if buffering in (-1, 1) else buffering
        if "+" in mode:
            buf = io.BufferedRandom(raw, size)
        elif any(c in mode for c in "wax"):
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, max(size, 512))
        if binary:
            return buf
        text = io.TextIOWrapper(buf, encoding, errors, newline)
        text.mode = mode
        return text

    @staticmethod
    def _flags(mode: str) -> int:
        base = os.O_RDWR if "+" in mode else (os.O_WRONLY if any(c in mode for c in "wax") else os.O_RDONLY)
        if "w" in mode:
            base |= os.O_CREAT | os.O_TRUNC
        if "x" in mode:
            base |= os.O_CREAT | os.O_EXCL
        if "a" in mode:
            base |= os.O_CREAT | os.O_APPEND
        return base

    def buffer_size(self) -> int:
        return self.run.plan.get("buffer", 8192)


class SimRaw(io.RawIOBase):
    """An open file of a virtual process."""

    def __init__(self, fs: FS, path: str, mode: str = "r", fd: int | None = None, flags: int | None = None, perm: int = 0o666):
        super().__init__()
        self.fs = fs
        self.path = path
        self.name = path
        self.proc = fs.world.proc
        self.own_fd = True
        self.append = False
        if flags is None:
            flags = fs._flags(mode)
        self.flags = flags
        writing = flags & (os.O_WRONLY | os.O_RDWR)
        new = not os.path.exists(path)
        res = fs.op("create" if (writing and new) else "open", path)
        self.fd = REAL["os_open"](path, flags | os.O_CLOEXEC, perm)
        self.proc = fs.world.proc
        if writing and new:
            self.ino = fs.created(path)
        else:
            self.ino = fs.names.get(path)
            if self.ino is None:
                with REAL["io_open"](path, "rb") as fh:
                    self.ino = fs.inode(fh.read())
                fs.names[path] = self.ino
                fs.base.setdefault(path, self.ino)
            if flags & os.O_TRUNC and writing:
                self.ino.data = bytearray()
                self.ino.writes.append(("t", 0))
        self.append = bool(flags & os.O_APPEND)
        fs.fds[self.fd] = self
        self.set_mode(mode)
        fs.after(res, self.proc)

    def set_mode(self, mode: str) -> None:
        self.mode = mode if "b" in mode else mode + "b"
        self._w = any(c in mode for c in "wax+")
        self._r = "+" in mode or not any(c in mode for c in "wax")

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def fileno(self):
        return self.fd

    def _alive(self):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        if self.proc.dead:
            raise SimCrash("dead")

    def tell(self):
        return os.lseek(self.fd, 0, os.SEEK_CUR)

    def seek(self, pos, whence=0):
        return os.lseek(self.fd, pos, whence)

    def readinto(self, b):
        self._alive()
        if self.fs.count_reads:
            res = self.fs.op("read", self.path, 0)
            if res is not None and res[0] == "partial":
                b = memoryview(b)[:max(1, res[1])]
        data = os.read(self.fd, len(b))
        b[:len(data)] = data
        return len(data)

    def write(self, b):
        self._alive()
        b = bytes(b)
        res = self.fs.op("write", self.path, len(b))
        n, err = len(b), None
        if res is not None and res[0] == "partial":
            n, err = min(res[1], len(b)), res[2]
        if n:
            off = len(self.ino.data) if self.append else self.tell()
            if self.append:
                os.lseek(self.fd, off, os.SEEK_SET)
            view = b[:n]
            while view:
                view = view[REAL["os_write"](self.fd, view):]
            if len(self.ino.data) < off + n:
                self.ino.data.extend(b"\0" * (off + n - len(self.ino.data)))
            self.ino.data[off:off + n] = b[:n]
            self.ino.writes.append(("w", off, b[:n]))
        if err is not None:
            if isinstance(err, SimCrash):
                self.proc.dead = True
            raise err
        return n

    def truncate(self, size=None):
        self._alive()
        if size is None:
            size = self.tell()
        res = self.fs.op("truncate", self.path)
        os.ftruncate(self.fd, size)
        if len(self.ino.data) > size:
            del self.ino.data[size:]
        else:
            self.ino.data.extend(b"\0" * (size - len(self.ino.data)))
        self.ino.writes.append(("t", size))
        self.fs.after(res, self.proc)
        return size

    def fsync(self):
        self._alive()
        res = self.fs.op("fsync", self.path)
        self.ino.durable = bytes(self.ino.data)
        self.ino.writes = []
        self.fs.after(res, self.proc)

    def close(self):
        if self.closed:
            return
        try:
            super().close()
        finally:
            if self.own_fd and self.fs.fds.pop(self.fd, None) is not None:
                try:
                    REAL["os_close"](self.fd)
                except OSError:
                    pass


def real_makedirs(path: str) -> None:
    if not os.path.isdir(path):
        real_makedirs(os.path.dirname(path))
        REAL["mkdir"](path)


def make_root() -> str:
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
    import tempfile
    return REAL["mkdtemp"](prefix="irtsim-", dir=base) if "mkdtemp" in REAL else tempfile.mkdtemp(prefix="irtsim-", dir=base)


def drop_root(path: str) -> None:
    if os.path.basename(path).startswith("irtsim-"):
        shutil.rmtree(path, ignore_errors=True)
