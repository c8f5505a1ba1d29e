"""The simulated disk: real files below a scratch directory, every mutating
operation of which goes through the current Disk object, which may let it
succeed, fail it (ENOSPC, EIO, short write) or kill the process before, in the
middle of, or after it.

Crash model: the process dies, the operating system survives.  What reached the
kernel (raw write() calls) stays; what sat in user-space buffers is lost; the
write in flight may have been done in part.
"""
import builtins
import errno
import io
import os

from . import kernel as kn
from .errors import SimCrash, SimKilled

CUR = None
_r = {}


class Disk:
    """root: absolute scratch path.  plan(op, path, size) -> None or a fault
    tuple: ("crash", done_fraction_in_1000), ("errno", code, partial_1000); a
    negative fraction -k means: up to the k-th record boundary inside the data"""

    def __init__(self, root, plan=None, kernel=None):
        self.root = os.path.abspath(root)
        self.plan = plan
        self.ops = 0
        self.frozen = False
        self.log = []
        self.faults = {}
        self.epoch = 0
        self.dead_epochs = set()
        self.on_op = None

    def covers(self, path):
        try:
            if isinstance(path, int):
                return False
            p = os.fspath(path)
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        p = os.path.abspath(p)
        return p == self.root or p.startswith(self.root + os.sep)

    def rel(self, path):
        try:
            return os.path.relpath(os.fspath(path), self.root)
        except (TypeError, ValueError):
            return str(path)

    def dead(self, epoch=None):
        if self.frozen:
            return True
        if epoch is not None and epoch in self.dead_epochs:
            return True
        k = kn.K
        if k is not None and k.frozen:
            return True
        return False

    def fault(self, kind):
        self.faults[kind] = self.faults.get(kind, 0) + 1

    def step(self, op, path, size=0):
        """Called before each mutating operation.  Returns a fault or None."""
        self.ops += 1
        if len(self.log) < 2000:
            self.log.append((op, self.rel(path), size))
        if self.on_op is not None:
            self.on_op(op, path, size)
        if self.plan is None:
            return None
        return self.plan(op, path, size)

    def crash(self):
        """The (only) simulated process dies here."""
        self.fault("crash")
        self.frozen = True
        self.dead_epochs.add(self.epoch)
        raise SimCrash()

    def reboot(self):
        """A new process starts on the same disk."""
        self.dead_epochs.add(self.epoch)
        self.epoch += 1
        self.frozen = False


def _apply(d, f, do_all, do_part=None):
    """Runs an operation under fault f."""
    if f is None:
        return do_all()
    if f[0] == "crash":
        frac = f[1]
        if frac >= 1000:
            do_all()
        elif frac and do_part is not None:
            do_part(frac)
        d.crash()
    if f[0] == "crash-task":  # kills the simulated process of the current task
        frac = f[1]
        if frac >= 1000:
            do_all()
        elif frac and do_part is not None:
            do_part(frac)
        d.fault("kill")
        kn.K.kill_proc(kn.K.current.proc, 9)
        raise SimKilled()
    if f[0] == "errno":
        d.fault(errno.errorcode[f[1]])
        if f[2] and do_part is not None:
            do_part(f[2])
        raise OSError(f[1], os.strerror(f[1]))
    if f[0] == "short":
        d.fault("short-write")
        return do_part(f[1])
    raise AssertionError(f)


def boundaries(data):
    """Where a record, a line or an archive member seems to end inside data:
    the cuts that a careless reader would not notice."""
    for mark, off in ((b".\x80", 1), (b"\n", 1), (b"PK\x03\x04", 0), (b"PK\x01\x02", 0), (b".", 1)):
        out, i = [], data.find(mark)
        while i >= 0:
            if 0 < i + off < len(data):
                out.append(i + off)
            i = data.find(mark, i + 1)
        if out:
            return out
    return []


class SimRaw(io.RawIOBase):
    """A raw file below the scratch root, opened for writing."""

    def __init__(self, disk, path, mode):
        self.disk = disk
        self.epoch = disk.epoch
        self.path = path
        self.name = path
        self.mode = mode
        self.raw = _r["FileIO"](path, mode)

    def readable(self):
        return self.raw.readable()

    def writable(self):
        return self.raw.writable()

    def seekable(self):
        return self.raw.seekable()

    def seek(self, *a):
        return self.raw.seek(*a)

    def tell(self):
        return self.raw.tell()

    def readinto(self, b):
        return self.raw.readinto(b)

    def fileno(self):
        raise io.UnsupportedOperation("fileno")

    def isatty(self):
        return False

    def truncate(self, size=None):
        d = self.disk
        if d.dead(self.epoch):
            return size
        _point("truncate")
        return _apply(d, d.step("truncate", self.path), lambda: self.raw.truncate(size))

    def write(self, b):
        d = self.disk
        data = bytes(b)
        if d.dead(self.epoch):
            return len(data)
        _point("write")
        f = d.step("write", self.path, len(data))

        def all_():
            return self.raw.write(data)

        def part(frac):
            if frac < 0:
                b = boundaries(data)
                n = b[-frac % len(b)] if b else 0
            else:
                n = max(0, min(len(data), len(data) * frac // 1000))
            if n:
                self.raw.write(data[:n])
            return n

        if f is not None and f[0] == "short":
            n = max(1, len(data) * f[1] // 1000)
            d.fault("short-write")
            return self.raw.write(data[:n])
        return _apply(d, f, all_, part)

    def close(self):
        if not self.closed:
            try:
                super().close()
            finally:
                self.raw.close()
            d = self.disk
            if getattr(d.plan, "close_faults", False) and not d.dead(self.epoch):
                # the descriptor is gone, but close() reports an error
                _apply(d, d.step("close", self.path), lambda: None)


def _point(label):
    k = kn.K
    if k is not None and len(k.tasks) > 1:
        k.point("io-" + label)


def _sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    d = CUR
    if d is None or not d.covers(file) or opener is not None:
        return _r["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    if not any(c in mode for c in "wax+"):
        return _r["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    path = os.path.abspath(os.fspath(file))
    if d.dead():
        # a dead process: give it a sink
        raw = _r["FileIO"](os.devnull, "w")
    else:
        _point("open")
        f = d.step("open-" + mode.replace("b", "").replace("t", ""), path)
        if f is not None:
            frac = f[1] if f[0] in ("crash", "crash-task") else 0
            if frac >= 500:  # the file was created / truncated, then death
                _r["FileIO"](path, mode.replace("b", "").replace("t", "")).close()
                f = (f[0], 0)
            if f[0] == "short":
                f = None
        raw = _apply(d, f, lambda: SimRaw(d, path, mode.replace("b", "").replace("t", "")))
    binary = "b" in mode
    if buffering == 0:
        return raw
    if "+" in mode:
        buf = io.BufferedRandom(raw, buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE)
    else:
        buf = io.BufferedWriter(raw, buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE)
    if binary:
        return buf
    text = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline, line_buffering=buffering == 1)
    text.mode = mode
    return text


def _wrap_path_op(name, npaths=1):
    orig = getattr(os, name)
    _r[name] = orig

    def fn(*a, **kw):
        d = CUR
        if d is None or kw.get("dir_fd") is not None:
            if d is not None and d.dead() and kw.get("dir_fd") is not None:
                return None
            return orig(*a, **kw)
        paths = list(a[:npaths])
        if not any(d.covers(p) for p in paths):
            return orig(*a, **kw)
        if d.dead():
            return None
        _point(name)
        if name == "mkdir" and os.path.lexists(paths[0]):
            return orig(*a, **kw)  # EEXIST comes before anything else can fail
        f = d.step(name, paths[-1])
        if f is not None and f[0] == "short":
            f = None
        if f is not None and f[0] in ("crash", "crash-task"):
            # metadata operations are atomic: before or after
            f = (f[0], 1000 if f[1] >= 500 else 0)
        return _apply(d, f, lambda: orig(*a, **kw))

    fn.__name__ = name
    setattr(os, name, fn)


def install():
    import torch

    _r["open"] = builtins.open
    _r["FileIO"] = io.FileIO
    builtins.open = _sim_open
    io.open = _sim_open
    for name, n in (("mkdir", 1), ("rename", 2), ("replace", 2), ("remove", 1), ("unlink", 1), ("rmdir", 1),
                    ("symlink", 2), ("link", 2), ("truncate", 1)):
        _wrap_path_op(name, n)
    # pathlib in 3.12 calls io.open / os.* by attribute: covered.
    _r["torch_save"] = torch.save
    _r["torch_load"] = torch.load

    def save(obj, f, *a, **kw):
        d = CUR
        if d is None or not (isinstance(f, (str, os.PathLike)) and d.covers(f)):
            return _r["torch_save"](obj, f, *a, **kw)
        b = io.BytesIO()
        _r["torch_save"](obj, b, *a, **kw)
        data = b.getvalue()
        with builtins.open(f, "wb", buffering=0) as fp:
            # the real writer emits several write() calls
            n = max(1, (len(data) + 2) // 3)
            pos = 0
            while pos < len(data):
                w = fp.write(data[pos:pos + n])
                if not w:
                    break
                pos += w

    torch.save = save
    torch.serialization.save = save

    def load(f, *a, **kw):
        k = kn.K
        if k is not None and len(k.tasks) > 1:
            k.point("io-load")
        return _r["torch_load"](f, *a, **kw)

    torch.load = load


def use(disk):
    global CUR
    CUR = disk
