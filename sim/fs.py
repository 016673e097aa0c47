"""The simulated disk: every file operation below the run's scratch directory.

``hub.fs`` is None (transparent) or a Disk.  A Disk counts I/O steps, cuts writes
into pieces as an operating system may, fragments reads, and injects one fault:
an error of a given step, a full disk after so many bytes, or a kill of the
process before, in the middle of, or right after a step.  Bytes handed to the
operating system before a kill survive it; user-space buffers do not.
"""
import builtins
import errno
import io
import os
import random
import shutil

from .hub import hub

_open = io.open
_os = {n: getattr(os, n) for n in ("open", "write", "close", "replace", "rename", "remove",
                                   "unlink", "fsync", "fdatasync", "truncate", "ftruncate",
                                   "link", "symlink")}
KILL = 86


class Disk:
    """cfg: {"seed": n, "frag": bool, "piece": n, "buffer": n, "fault": {...}}

    fault: {"op": kind or "*", "n": k, "how": "EIO"|"ENOSPC"|"EACCES"|"ENOENT"|
    "EMFILE"|"kill"|"kill_mid"|"kill_after"} fires at the k-th step of that kind;
    or {"op": "space", "n": bytes}: the disk is full after that many bytes.
    """

    def __init__(self, root, cfg):
        self.root = os.path.realpath(root)
        self.cfg = cfg
        self.rng = random.Random("disk/%s" % cfg.get("seed", 0))
        self.fault = cfg.get("fault")
        self.space = self.fault["n"] if self.fault and self.fault["op"] == "space" else None
        self.steps = {}
        self.total = 0
        self.fired = None
        self.opened = []
        self.destroyed = []

    def mine(self, path):
        if hub.fs is not self or not hub.active:
            return False
        try:
            if isinstance(path, int):
                path = os.readlink("/proc/self/fd/%d" % path)
            else:
                path = os.path.realpath(os.fspath(path))
            if isinstance(path, bytes):
                path = os.fsdecode(path)
        except (OSError, TypeError):
            return False
        return path == self.root or path.startswith(self.root + os.sep)

    def fire(self, kind):
        self.fired = dict(self.fault)
        k = "disk:%s@%s" % (self.fault["how"], kind)
        hub.fired_kinds[k] = hub.fired_kinds.get(k, 0) + 1
        hub.note("fault", k)

    def step(self, kind):
        """Counts a step; returns the fault that strikes it, if any."""
        hub.steps += 1
        self.total += 1
        self.steps[kind] = self.steps.get(kind, 0) + 1
        hub.note("io", kind)
        if hub.switch is not None:
            hub.switch()
        f = self.fault
        if f is None or self.fired or f["op"] == "space":
            return None
        n = self.total if f["op"] == "*" else (self.steps[kind] if f["op"] == kind else -1)
        if n != f["n"]:
            return None
        return f["how"]

    def write(self, data, real_write):
        """One write call: possibly short, failing, or cut by a kill."""
        data = bytes(data)
        how = self.step("write")
        piece = self.cfg.get("piece")
        if piece and len(data) > piece:
            data = data[:self.rng.randint(max(1, piece // 2), piece)]
        if how is not None:
            self.fire("write")
            if how == "kill":
                os._exit(KILL)
            if how == "kill_mid":
                real_write(data[:max(1, len(data) // 2)])
                os._exit(KILL)
            if how == "kill_after":
                real_write(data)
                os._exit(KILL)
            raise OSError(getattr(errno, how), os.strerror(getattr(errno, how)))
        if self.space is not None:
            if self.space <= 0:
                if not self.fired:
                    self.fault = dict(self.fault, how="ENOSPC")
                    self.fire("write")
                raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC))
            data = data[:self.space]
            self.space -= len(data)
        return real_write(data)

    def before(self, kind, path):
        """Called before an operation that either happens or does not."""
        how = self.step(kind)
        if how is None:
            return None
        if how.startswith("kill"):
            self.fire(kind)
            if how != "kill_after":
                os._exit(KILL)
            return how
        self.fire(kind)
        raise OSError(getattr(errno, how), os.strerror(getattr(errno, how)), str(path))


def _disk():
    return hub.fs if hub.active else None


class FaultyFileIO(io.FileIO):
    """A raw file that reads and writes in pieces and fails on demand."""

    def __init__(self, disk, *a, **kw):
        self._disk_ = disk
        super().__init__(*a, **kw)

    def write(self, data):
        d = self._disk_
        if hub.fs is not d or not hub.active:
            return super().write(data)
        return d.write(data, super().write)

    def _read_step(self):
        d = self._disk_
        how = d.step("read")
        if how is None:
            return
        d.fire("read")
        if how.startswith("kill"):
            os._exit(KILL)
        raise OSError(getattr(errno, how), os.strerror(getattr(errno, how)))

    def _live(self):
        return hub.fs is self._disk_ and hub.active

    def readinto(self, buffer):
        if not self._live():
            return super().readinto(buffer)
        self._read_step()
        d = self._disk_
        view = memoryview(buffer).cast("B")
        n = len(view)
        if d.cfg.get("frag") and n > 1:
            n = d.rng.choice([1, 2, 7, 31, n])
        data = super().read(min(n, len(view)))
        if data is None:
            return None
        view[:len(data)] = data
        return len(data)

    def read(self, size=-1):
        if not self._live():
            return super().read(size)
        if size is None or size < 0:
            return self.readall()
        self._read_step()
        d = self._disk_
        if d.cfg.get("frag") and size > 1:
            size = d.rng.choice([1, 2, 7, 31, size])
        return super().read(size)

    def readall(self):
        if not self._live():
            return super().readall()
        out = b""
        while True:
            b = self.read(4096)
            if not b:
                return out
            out += b

    def close(self):
        d = self._disk_
        if self.closed or not self._live():
            return super().close()
        how = d.step("close")
        if how is not None and how.startswith("kill"):
            d.fire("close")
            if how != "kill":
                super().close()
            os._exit(KILL)
        super().close()
        if how is not None and self.writable_:
            d.fire("close")
            raise OSError(getattr(errno, how), os.strerror(getattr(errno, how)))

    writable_ = True


def _sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None,
              closefd=True, opener=None):
    d = _disk()
    if d is None or not d.mine(file):
        return _open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    flags = set(mode)
    if flags - set("axrwb+tU") or len(mode) > len(flags):
        raise ValueError("invalid mode: %r" % mode)
    writing = bool(flags & set("wax+"))
    if writing and not isinstance(file, int):
        _note_loss(d, file, "w" in flags)
    after = d.before("open_w" if writing else "open_r", file)
    raw_mode = "".join(c for c in mode if c in "axrw+")
    raw = FaultyFileIO(d, file, raw_mode or "r", closefd=closefd, opener=opener)
    raw.writable_ = writing
    if after:
        os._exit(KILL)
    size = buffering
    binary = "b" in flags
    if buffering == 0:
        if not binary:
            raise ValueError("can't have unbuffered text I/O")
        return raw
    line = buffering == 1 and not binary
    if buffering < 0 or line:
        size = d.cfg.get("buffer") or io.DEFAULT_BUFFER_SIZE
    if "+" in flags:
        buf = io.BufferedRandom(raw, size)
    elif writing:
        buf = io.BufferedWriter(raw, size)
    else:
        buf = io.BufferedReader(raw, size)
    if binary:
        return buf
    text = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline, line)
    text.mode = mode
    return text


def _note_loss(d, path, truncates):
    """Records that the previous content of an existing file is about to go."""
    path = os.path.realpath(os.fspath(path))
    if os.path.exists(path):
        d.destroyed.append(("truncate" if truncates else "modify", os.path.basename(path)))
    d.opened.append(os.path.basename(path))


def _wrap(name, kind, paths=1):
    real = _os[name]

    def op(*a, **kw):
        d = _disk()
        if d is None or not (a and d.mine(a[0]) or len(a) > 1 and paths > 1 and d.mine(a[1])):
            return real(*a, **kw)
        after = d.before(kind, a[0])
        out = real(*a, **kw)
        if after:
            os._exit(KILL)
        return out
    op.__name__ = name
    return op


def _sim_os_write(fd, data):
    d = _disk()
    if d is None or not d.mine(fd):
        return _os["write"](fd, data)
    return d.write(data, lambda piece: _os["write"](fd, piece))


def install():
    builtins.open = _sim_open
    io.open = _sim_open
    import _io
    _io.open = _sim_open
    for name, kind, n in (("open", "os_open", 1), ("replace", "replace", 2),
                          ("rename", "replace", 2), ("remove", "remove", 1),
                          ("unlink", "remove", 1), ("fsync", "fsync", 1),
                          ("fdatasync", "fsync", 1), ("truncate", "truncate", 1),
                          ("ftruncate", "truncate", 1), ("link", "link", 2),
                          ("symlink", "link", 2)):
        setattr(os, name, _wrap(name, kind, n))
    os.write = _sim_os_write
    # the bulk copies of shutil must go through read and write
    shutil._USE_CP_SENDFILE = False
    shutil._HAS_FCOPYFILE = False
    import numpy.lib._datasource as ds
    if ds._file_openers._loaded is False:
        ds._file_openers._load()
    ds._file_openers._file_openers[None] = _sim_open
