"""File-system seam of a simulated process.

All file operations of the process that concern the scratch tree of the run pass through
this module: they are points of the schedule (the controller decides which process goes on)
and places where faults strike.  Data live in real files of the scratch tree, so that
several simulated processes share them; buffers live in the process and die with it.
"""
from __future__ import annotations

import _thread
import builtins
import errno
import functools
import io
import os
import posix
import sys

from . import engine

WRITES = {"open_w", "write", "mkdir", "rename", "unlink", "rmdir", "truncate", "link", "fsync", "utime", "chmod"}
# which fault makes sense at which operation
APPLICABLE = {
    "errno": {"open_r", "open_w", "read", "write", "mkdir", "rename", "unlink", "stat", "list", "close", "fsync", "truncate", "link", "rmdir"},
    "crash": None,
    "crash_after": None,
    "crash_mid": {"write"},
    "short": {"read", "write"},
    "interrupt": None,
}


INSTALLED = "installed:"


class FS:
    def __init__(self, root: str, ask) -> None:
        self.root = os.path.realpath(root)
        self.ask = ask  # (context, op, rel, info) -> fault or None
        self.on = False
        self.points = False
        self.log: list = []
        self.outside: list = []
        self.fds: dict[int, str] = {}
        self.context: dict[int, list] = {}  # thread -> [thread number, action, count]
        self.quiet: set = set()
        self.busy: set = set()  # threads inside the seam (their own calls are not events)
        self.sched_point = None
        self.redirect: dict[str, str] = {}  # files that have other contents in this world
        self.installed: list = []  # directories of installed packages: their reads can fail, they cannot be written

    def path(self, p) -> str | None:
        """Path relative to the scratch tree, or None for other paths."""
        if isinstance(p, int):
            return self.fds.get(p)
        try:
            p = os.fsdecode(os.fspath(p))
        except TypeError:
            return None
        if not p.startswith("/"):
            p = posix.getcwd() + "/" + p
        p = os.path.normpath(p)
        if p == self.root or p.startswith(self.root + "/"):
            return os.path.relpath(p, self.root)
        for top in self.installed:
            if p.startswith(top + "/"):
                return INSTALLED + p[len(top) + 1 :]
        return None

    def target(self, p):
        """The file that stands in for another one, or the path itself."""
        if not self.redirect or isinstance(p, int):
            return p
        return self.redirect.get(os.path.abspath(os.fsdecode(os.fspath(p))), p)

    def active(self) -> bool:
        me = _thread.get_ident()
        return self.on and me not in self.quiet and me not in self.busy

    def event(self, op: str, rel: str, info=None):
        """Announces an operation; returns the fault that strikes it, if any."""
        me = _thread.get_ident()
        ctx = self.context.setdefault(me, [0, -1, 0])
        ctx[2] += 1
        self.log.append([ctx[0], ctx[1], op, rel] + ([info] if info is not None else []))
        if op in WRITES and rel.startswith(INSTALLED):
            self.outside.append([op, rel])
            raise OSError(errno.EROFS, os.strerror(errno.EROFS), rel)
        if not self.points:
            return None
        if self.sched_point is not None:
            self.busy.add(me)
            try:
                self.sched_point(("fs", op))
            finally:
                self.busy.discard(me)
        fault = self.ask(ctx, op, rel, info)
        if not fault:
            return None
        kind = fault["kind"]
        if kind == "crash":
            posix._exit(66)
        if kind == "interrupt":
            raise KeyboardInterrupt
        if kind == "errno" and op not in {"write", "close"}:
            raise make_error(fault, rel if rel.startswith(INSTALLED) else os.path.join(self.root, rel))
        return fault

    def after(self, fault) -> None:
        if fault and fault["kind"] == "crash_after":
            posix._exit(66)


def make_error(fault, path=None) -> OSError:
    code = getattr(errno, fault["errno"])
    return OSError(code, os.strerror(code), path)


FSIM: FS | None = None
_real: dict = {}


def date(file) -> None:
    """A file that is written after simulated time has passed gets the simulated time."""
    if engine.CLOCK.slept:
        now = engine.CLOCK.slept + engine.CLOCK.real_time()
        try:
            posix.utime(file, (now, now))
        except OSError:
            pass


class SimFile(io.FileIO):
    """Raw file whose reads and writes can fail, come up short, or kill the process."""

    def __init__(self, file, mode, rel, **kw) -> None:
        self._rel = rel
        self._closed_once = False
        super().__init__(file, mode, **kw)
        FSIM.fds[self.fileno()] = rel
        self._writes = any(c in mode for c in "wax+")
        if self._writes:
            date(self.fileno())

    def readinto(self, b):
        f = FSIM
        if not f.active():
            return super().readinto(b)
        fault = f.event("read", self._rel)
        if fault and fault["kind"] == "short":
            data = super().read(max(1, int(len(b) * fault.get("frac", 0.3))))
            b[: len(data)] = data
            n = len(data)
        else:
            n = super().readinto(b)
        f.after(fault)
        return n

    def read(self, size=-1):
        f = FSIM
        if not f.active():
            return super().read(size)
        if size is None or size < 0:
            return self.readall()
        fault = f.event("read", self._rel)
        if fault and fault["kind"] == "short" and size > 1:
            size = max(1, int(size * fault.get("frac", 0.3)))
        data = super().read(size)
        f.after(fault)
        return data

    def readall(self):
        f = FSIM
        if not f.active():
            return super().readall()
        chunks = []
        while True:
            fault = f.event("read", self._rel)
            size = 1 << 20
            if fault and fault["kind"] == "short":
                size = 1 + int(600 * fault.get("frac", 0.3))
            data = super().read(size)
            f.after(fault)
            if not data:
                return b"".join(chunks)
            chunks.append(data)

    def write(self, b):
        f = FSIM
        if not f.active():
            return super().write(b)
        view = memoryview(b).cast("B")
        fault = f.event("write", self._rel, len(view))
        kind = fault["kind"] if fault else None
        if kind in {"short", "crash_mid"} or (kind == "errno" and fault["errno"] == "ENOSPC"):
            part = max(1, int(len(view) * fault.get("frac", 0.3))) if len(view) > 1 else len(view)
            if kind == "errno":
                part = int(len(view) * fault.get("frac", 0.3))
            n = super().write(view[:part]) if part else 0
            if kind == "crash_mid":
                posix._exit(66)
            if kind == "errno":
                raise make_error(fault, None)
            return n
        if kind == "errno":
            raise make_error(fault, None)
        n = super().write(view)
        f.after(fault)
        return n

    def truncate(self, size=None):
        f = FSIM
        if f.active():
            f.event("truncate", self._rel)
        return super().truncate(size)

    def close(self):
        f = FSIM
        if not f.active() or self.closed:
            return super().close()
        if self._closed_once:
            return super().close()
        self._closed_once = True
        fault = None
        try:
            fault = f.event("close", self._rel)
        finally:
            f.fds.pop(self.fileno(), None)
            if self._writes:
                date(self.fileno())
            super().close()
        if fault and fault["kind"] == "errno":
            raise make_error(fault, None)
        f.after(fault)
        return None


def _open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    f = FSIM
    rel = f.path(file) if f.active() else None
    if rel is None or opener is not None:
        return _real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    writing = any(c in mode for c in "wax+")
    fault = None
    if not isinstance(file, int):
        fault = f.event("open_w" if writing else "open_r", rel, mode.replace("b", "").replace("t", ""))
    raw_mode = mode.replace("b", "").replace("t", "")
    me = _thread.get_ident()
    f.busy.add(me)
    try:
        raw = SimFile(f.target(file), raw_mode, rel, closefd=closefd)
    finally:
        f.busy.discard(me)
    f.after(fault)
    binary = "b" in mode
    if buffering == 0:
        if not binary:
            raise ValueError("can't have unbuffered text I/O")
        return raw
    line = buffering == 1 and not binary
    size = io.DEFAULT_BUFFER_SIZE if buffering in {-1, 1} else buffering
    if "+" in mode:
        buf = io.BufferedRandom(raw, size)
    elif writing:
        buf = io.BufferedWriter(raw, size)
    else:
        buf = io.BufferedReader(raw, size)
    if binary:
        return buf
    text = io.TextIOWrapper(buf, encoding, errors, newline, line)
    text.mode = mode
    return text


def _wrap1(name: str, op: str, arg: int = 0):
    real = getattr(os, name)
    _real[name] = real

    def call(*args, **kw):
        f = FSIM
        if not f.active() or len(args) <= arg:
            return real(*args, **kw)
        rel = f.path(args[arg])
        if rel is None or kw.get("dir_fd") is not None:
            return real(*args, **kw)
        fault = f.event(op, rel)
        if f.redirect and op == "stat":
            args = (*args[:arg], f.target(args[arg]), *args[arg + 1 :])
        out = real(*args, **kw)
        f.after(fault)
        return out

    call.__name__ = name
    setattr(os, name, call)


def _wrap2(name: str, op: str):
    real = getattr(os, name)
    _real[name] = real

    def call(src, dst, *args, **kw):
        f = FSIM
        if not f.active():
            return real(src, dst, *args, **kw)
        a, b = f.path(src), f.path(dst)
        if a is None and b is None:
            return real(src, dst, *args, **kw)
        if a is None or b is None:
            f.outside.append([name, str(src), str(dst)])
        fault = f.event(op, b if b is not None else a, a)
        out = real(src, dst, *args, **kw)
        f.after(fault)
        return out

    call.__name__ = name
    setattr(os, name, call)


def _os_open(path, flags, mode=0o777, *, dir_fd=None):
    f = FSIM
    rel = f.path(path) if f.active() and dir_fd is None else None
    if rel is None:
        return _real["os.open"](path, flags, mode, dir_fd=dir_fd)
    writing = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND)
    if flags & os.O_DIRECTORY:
        writing = 0
    how = "x" if flags & os.O_EXCL else "w" if flags & os.O_TRUNC else "a" if writing else "r"
    fault = f.event("open_w" if writing else "open_r", rel, how)
    fd = _real["os.open"](f.target(path), flags, mode)
    f.fds[fd] = rel
    if writing:
        date(fd)
    f.after(fault)
    return fd


def _os_close(fd):
    f = FSIM
    if f.active() and fd in f.fds:
        f.fds.pop(fd, None)
    return _real["os.close"](fd)


def _os_write(fd, data):
    f = FSIM
    rel = f.fds.get(fd) if f.active() else None
    if rel is None:
        return _real["os.write"](fd, data)
    fault = f.event("write", rel, len(data))
    kind = fault["kind"] if fault else None
    if kind in {"short", "crash_mid"}:
        n = _real["os.write"](fd, bytes(data)[: max(1, int(len(data) * fault.get("frac", 0.3)))])
        if kind == "crash_mid":
            posix._exit(66)
        return n
    if kind == "errno":
        raise make_error(fault)
    n = _real["os.write"](fd, data)
    f.after(fault)
    return n


def _os_read(fd, n):
    f = FSIM
    rel = f.fds.get(fd) if f.active() else None
    if rel is None:
        return _real["os.read"](fd, n)
    fault = f.event("read", rel)
    if fault and fault["kind"] == "short":
        n = max(1, int(n * fault.get("frac", 0.3)))
    out = _real["os.read"](fd, n)
    f.after(fault)
    return out


def _os_fdopen(fd, mode="r", buffering=-1, encoding=None, *args, **kw):
    if not isinstance(fd, int):
        raise TypeError("invalid fd type (%s, expected integer)" % type(fd))
    return _open(fd, mode, buffering, encoding, *args, **kw)


def _flock(fd, op, *args, name="fcntl.flock"):
    """Advisory locks block through the controller, not in the kernel."""
    import fcntl

    f = FSIM
    num = fd if isinstance(fd, int) else fd.fileno()
    rel = f.fds.get(num) if f.active() else None
    if rel is None or op & fcntl.LOCK_UN or op & fcntl.LOCK_NB:
        return _real[name](fd, op, *args)
    while True:
        try:
            return _real[name](fd, op | fcntl.LOCK_NB, *args)
        except OSError as e:
            if e.errno not in {errno.EAGAIN, errno.EACCES}:
                raise
        f.event("lockwait", rel)


_AUDITED = {"os.mkdir": 0, "os.rename": 1, "os.remove": 0, "os.rmdir": 0, "os.link": 1, "os.symlink": 1, "os.truncate": 0, "os.chmod": 0, "os.utime": 0, "os.chown": 0}


def _audit(name, args):
    f = FSIM
    if f is None or not f.on:
        return
    if name == "open":
        path, mode, flags = args[0], args[1], args[2]
        if isinstance(path, int) or path is None:
            return
        if not ((isinstance(mode, str) and any(c in mode for c in "wax+")) or (isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT))):
            return
    elif name in _AUDITED:
        path = args[_AUDITED[name]]
    else:
        return
    me = _thread.get_ident()
    if me in f.quiet:
        return
    try:
        text = os.fsdecode(path)
    except TypeError:
        return
    if f.path(text) is None and text != "/dev/null":
        f.outside.append([name, text])


def install(root: str, ask) -> FS:
    global FSIM
    FSIM = FS(root, ask)
    _real["open"] = builtins.open
    builtins.open = _open
    io.open = _open
    for name, fn in (("open", _os_open), ("close", _os_close), ("write", _os_write), ("read", _os_read)):
        _real["os." + name] = getattr(os, name)
        setattr(os, name, fn)
    os.fdopen = _os_fdopen
    for name, op in (
        ("stat", "stat"), ("lstat", "stat"), ("access", "stat"), ("mkdir", "mkdir"), ("unlink", "unlink"), ("remove", "unlink"),
        ("rmdir", "rmdir"), ("listdir", "list"), ("scandir", "list"), ("truncate", "truncate"), ("chmod", "chmod"), ("utime", "utime"),
        ("fsync", "fsync"), ("fdatasync", "fsync"), ("readlink", "stat"), ("ftruncate", "truncate"),
    ):
        _wrap1(name, op)
    _wrap2("rename", "rename")
    _wrap2("replace", "rename")
    _wrap2("link", "link")
    _wrap2("symlink", "link")
    import fcntl

    _real["fcntl.flock"] = fcntl.flock
    fcntl.flock = _flock
    _real["fcntl.lockf"] = fcntl.lockf
    fcntl.lockf = functools.partial(_flock, name="fcntl.lockf")
    sys.addaudithook(_audit)
    return FSIM
