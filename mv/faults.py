"""I/O fault injection: files under a scratch directory are opened as raw files with short or failing reads and writes."""
import builtins
import contextlib
import errno
import io
import os
import random


class FaultyFile(io.FileIO):
    plan = None

    def _cut(self, n):
        p = self.plan
        if n <= 1 or p["short"] is None:
            return n
        return max(1, min(n, p["rng"].choice(p["short"])))

    def _fail(self, kind):
        p = self.plan
        if p["fail"] == kind:
            p["ops"] += 1
            if p["ops"] > p["after"]:
                p["failed"] += 1
                raise OSError(p["errno"], os.strerror(p["errno"]), str(self.name))

    def readinto(self, b):
        self._fail("read")
        view = memoryview(b).cast("B")
        n = self._cut(len(view))
        if n < len(view):
            self.plan["shorts"] += 1
        return super().readinto(view[:n])

    def read(self, size=-1):
        self._fail("read")
        if size is None or size < 0:
            return super().read(size)
        n = self._cut(size)
        if n < size:
            self.plan["shorts"] += 1
        return super().read(n)

    def write(self, b):
        self._fail("write")
        view = memoryview(b).cast("B")
        n = self._cut(len(view))
        if n < len(view):
            self.plan["shorts"] += 1
        p = self.plan
        if p["fail"] == "space":
            if p["space"] <= 0 and len(view):
                p["failed"] += 1
                raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), str(self.name))
            n = min(n, p["space"]) if len(view) else n
            p["space"] -= n
        return super().write(view[:n])


@contextlib.contextmanager
def faulty_files(root, seed=0, short=None, fail=None, after=0, space=0, err=errno.EIO, modes="rwa+"):
    """short: list of chunk sizes; fail: None|'read'|'write' (after that many operations)|'space' (after that many bytes)"""
    plan = {"rng": random.Random(seed), "short": short, "fail": fail, "after": after, "space": space, "ops": 0, "errno": err, "shorts": 0, "failed": 0}
    root = os.path.realpath(root) + os.sep
    real_open = io.open

    def fake_open(file, mode="r", buffering=-1, *args, **kwargs):
        if "b" in mode and isinstance(file, (str, os.PathLike)) and os.path.realpath(file).startswith(root):
            f = FaultyFile(file, mode.replace("b", ""))
            f.plan = plan
            if buffering == 0:
                return f
            size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
            if "+" in mode:
                return io.BufferedRandom(f, size)
            return io.BufferedReader(f, size) if f.readable() else io.BufferedWriter(f, size)
        return real_open(file, mode, buffering, *args, **kwargs)

    builtins_open = builtins.open
    io.open = fake_open
    builtins.open = fake_open
    try:
        yield plan
    finally:
        io.open = real_open
        builtins.open = builtins_open
