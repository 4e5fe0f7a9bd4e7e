"""Simulated network: one web server that serves one file, over connections that may fail in the usual ways."""
from __future__ import annotations
import email.message
import errno
import io
import os
import socket
import urllib.error
import urllib.request
import urllib.response

PORTAL = b"<html><head><title>Login required</title></head><body>Please accept the terms of use.</body></html>"


class Net:
    def __init__(self, world, content: bytes, url_part: str = "openpsychometrics"):
        self.world = world
        self.run = world.run
        self.content = content
        self.url_part = url_part
        self.requests = 0

    def fetch(self, url):
        """Yields header dict first and then chunks. Raises what a real fetch raises."""
        if not isinstance(url, str):
            url = url.full_url
        w, run = self.world, self.run
        proc = w.proc
        w.point("connect")
        n = proc.net_requests
        proc.net_requests += 1
        self.requests += 1
        run.ops["net.request"] += 1
        run.ev(w.proc.name, "request", n)
        run.tick(0.05)
        fault = None
        for f in proc.net_faults:
            if f["at"] == n:
                fault = f
        kind = fault["kind"] if fault else None
        if kind:
            run.fault("net-" + kind)
            run.state("net", kind)
        if kind == "refused":
            raise urllib.error.URLError(ConnectionRefusedError(errno.ECONNREFUSED, "Connection refused"))
        if kind == "dns":
            raise urllib.error.URLError(socket.gaierror(-3, "Temporary failure in name resolution"))
        if kind == "timeout":
            run.tick(60)
            raise urllib.error.URLError(TimeoutError("timed out"))
        if kind == "http503":
            raise urllib.error.HTTPError(url, 503, "Service Unavailable", email.message.Message(), io.BytesIO(b""))
        body = PORTAL if kind == "portal" else self.content
        frac = fault.get("frac", 0.5) if fault else 1.0
        if kind == "flip":
            b = bytearray(body)
            b[min(len(b) - 1, int(frac * len(b)))] ^= 0x40
            body = bytes(b)
        length = len(body)
        if kind in ("truncated", "silent", "reset"):
            body = body[: int(frac * length)]
        yield {"Content-Length": None if kind == "silent" else str(length)}
        size = max(1, run.plan.get("chunk", 16384))
        if kind == "slow":
            size = max(1, size // 8)
        for i in range(0, len(body), size):
            w.point("recv")
            if w.proc.dead:
                from .core import SimCrash
                raise SimCrash("dead")
            run.tick(5.0 if kind == "slow" else 0.01)
            run.ops["net.chunk"] += 1
            yield body[i:i + size]
        if kind == "reset":
            raise ConnectionResetError(errno.ECONNRESET, "Connection reset by peer")

    def urlopen(self, url, data=None, timeout=None, **kw):
        return Response(self, url)

    def urlretrieve(self, url, filename=None, reporthook=None, data=None):
        gen = self.fetch(url)
        headers = next(gen)
        if filename is None:
            import tempfile
            fd, filename = tempfile.mkstemp()
            os.close(fd)
        size = int(headers["Content-Length"]) if headers["Content-Length"] else -1
        read = 0
        with open(filename, "wb") as out:
            if reporthook:
                reporthook(0, 8192, size)
            for block, chunk in enumerate(gen):
                read += len(chunk)
                out.write(chunk)
                if reporthook:
                    reporthook(block + 1, 8192, size)
        msg = email.message.Message()
        if size >= 0:
            msg["Content-Length"] = str(size)
            if read < size:
                raise urllib.error.ContentTooShortError(f"retrieval incomplete: got only {read} out of {size} bytes", (filename, msg))
        return filename, msg


class Response(io.RawIOBase):
    def __init__(self, net: Net, url):
        super().__init__()
        self._gen = net.fetch(url)
        head = next(self._gen)
        self.headers = email.message.Message()
        if head["Content-Length"]:
            self.headers["Content-Length"] = head["Content-Length"]
        self._left = int(head["Content-Length"]) if head["Content-Length"] else None
        self._buf = b""
        self.status = self.code = 200
        self.url = url

    def info(self):
        return self.headers

    def getheader(self, name, default=None):
        return self.headers.get(name, default)

    def readable(self):
        return True

    def _fill(self) -> bool:
        try:
            self._buf += next(self._gen)
            return True
        except StopIteration:
            return False

    def read(self, n=-1):
        if n is None or n < 0:
            while self._fill():
                pass
            n = len(self._buf)
            out, self._buf = self._buf[:n], self._buf[n:]
            if self._left is not None:
                self._left -= len(out)
                if self._left > 0:
                    import http.client
                    raise http.client.IncompleteRead(out, self._left)
            return out
        while len(self._buf) < n and self._fill():
            pass
        out, self._buf = self._buf[:n], self._buf[n:]
        if self._left is not None:
            self._left -= len(out)
        return out

    def readinto(self, b):
        d = self.read(len(b))
        b[:len(d)] = d
        return len(d)
