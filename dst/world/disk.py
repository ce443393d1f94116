"""Simulated disk: decides listing orders and injects failures into reads below one directory. Everything is undone on exit."""
import builtins
import errno
import io
import os


class FaultyRaw(io.FileIO):
    """A file whose reads are short, interrupted, fail or end too early"""

    def __init__(self, path, fault, disk):
        super().__init__(path, "rb")
        self._f, self._disk, self._n, self._counted = fault, disk, 0, False

    def _count(self, what):
        if not self._counted:
            self._counted = True
            self._disk.fired[what] += 1

    def readinto(self, b):
        self._n += 1
        f = self._f
        k, n = f["k"], len(b)
        if k == "eintr" and self._n % 2 == 1:
            self._count("eintr")
            raise InterruptedError(errno.EINTR, "injected")
        if k == "short":
            self._count("short-read")
            n = min(n, 1 + (self._n * f.get("at", 7)) % 97 * 11)
        if k in ("eio", "trunc"):
            left = f["at"] - self.tell()
            if left <= 0:
                self._count({"eio": "read-error", "trunc": "early-end"}[k])
                if k == "eio":
                    raise OSError(errno.EIO, "injected")
                return 0
            n = min(n, left)
        view = memoryview(b)[:n]
        return super().readinto(view)

    def readall(self):
        out = bytearray()
        while True:
            buf = bytearray(4096)
            try:
                n = self.readinto(buf)
            except InterruptedError:
                continue
            if not n:
                return bytes(out)
            out += buf[:n]

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        buf = bytearray(size)
        n = self.readinto(buf)
        return bytes(buf[:n])


class _Entries:
    def __init__(self, entries, fail_at, disk):
        self.it, self.fail_at, self.disk, self.n = iter(entries), fail_at, disk, 0

    def __iter__(self):
        return self

    def __next__(self):
        self.n += 1
        if self.fail_at is not None and self.n > self.fail_at:
            self.disk.fired["listing-error"] += 1
            raise OSError(errno.EIO, "injected")
        return next(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


class Disk:
    """order(list of names) -> list of names ; faults: real path -> fault ; list_faults: real path -> entries before the failure"""

    def __init__(self, root: str, order, faults: dict, list_faults: dict, fired):
        self.root, self.order, self.faults, self.list_faults, self.fired = os.path.realpath(root), order, faults, list_faults, fired
        self.written: list = []
        self.opened: list = []

    def _below(self, path) -> bool:
        try:
            p = os.path.abspath(os.fspath(path))
        except TypeError:
            return False
        return isinstance(p, str) and (p == self.root or p.startswith(self.root + os.sep))

    def __enter__(self):
        self._saved = (os.scandir, os.listdir, builtins.open, io.open)
        scandir, listdir, open_, _ = self._saved

        def my_scandir(path="."):
            if not self._below(path):
                return scandir(path)
            with scandir(path) as it:
                by = {e.name: e for e in it}
            names = self.order(sorted(by))
            return _Entries([by[n] for n in names], self.list_faults.get(os.path.realpath(path)), self)

        def my_listdir(path="."):
            if not self._below(path):
                return listdir(path)
            if os.path.realpath(path) in self.list_faults:
                self.fired["listing-error"] += 1
                raise OSError(errno.EIO, "injected")
            return self.order(sorted(listdir(path)))

        def my_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
            if not self._below(file):
                return open_(file, mode, buffering, encoding, errors, newline, closefd, opener)
            if any(c in mode for c in "wax+"):
                self.written.append(os.fspath(file))
            real = os.path.realpath(file)
            self.opened.append(real)
            f = self.faults.get(real)
            if f is None or any(c in mode for c in "wax+"):
                return open_(file, mode, buffering, encoding, errors, newline, closefd, opener)
            if f["k"] in ("eacces", "enoent", "emfile"):
                self.fired["open-" + f["k"]] += 1
                code = getattr(errno, f["k"].upper())
                raise OSError(code, os.strerror(code), os.fspath(file))
            raw = FaultyRaw(file, f, self)
            buf = io.BufferedReader(raw, 512 if f["k"] == "short" else 8192)
            return buf if "b" in mode else io.TextIOWrapper(buf, encoding or "utf-8", errors, newline)

        os.scandir, os.listdir, builtins.open, io.open = my_scandir, my_listdir, my_open, my_open
        return self

    def __exit__(self, *a):
        os.scandir, os.listdir, builtins.open, io.open = self._saved
