"""Operating system seams: exec, files, random names, standard streams."""

from __future__ import annotations

import builtins
import errno
import io
import os
import pathlib
import random
import shutil
import subprocess
import sys
import tempfile
import typing as t
import uuid

from . import kernel, net, sync

real_open = io.open
real_unlink = os.unlink
real_replace = os.replace
real_rename = os.rename
real_fchmod = os.fchmod
real_run = subprocess.run
real_execve = os.execve
real_mkstemp = tempfile.mkstemp
real_os_open = os.open
real_os_close = os.close
real_fdopen = os.fdopen


class FsPolicy:
    """Disk behaviour under the simulated TMPDIR."""

    def __init__(self) -> None:
        self.enospc_after = -1  # bytes until ENOSPC, -1 never
        self.fail_open: set[int] = set()
        self.torn = 0.0


class World:
    """Per run state the seams need."""

    def __init__(self, sim: kernel.Sim, tmpdir: str) -> None:
        self.sim = sim
        self.tmpdir = tmpdir
        self.fs = FsPolicy()
        self.config_dump: bytes = b"[]"
        self.rng = random.Random(f"ids/{sim.ch.seed & 0xffff}")
        self.names = 0
        self.executable = sys.executable
        self.written = 0
        self.file_opens = 0


WORLD: World | None = None


def set_world(w: World | None) -> None:
    global WORLD
    WORLD = w


def _path_of(f: t.Any) -> str | None:
    if isinstance(f, int):
        return None
    try:
        return os.path.abspath(os.fsdecode(os.fspath(f)))
    except TypeError:
        return None


def _ours(f: t.Any) -> bool:
    if WORLD is None or not kernel.in_sim():
        return False
    p = _path_of(f)
    if p is None:
        return False
    cur = kernel.cur()
    return p.startswith(WORLD.tmpdir + "/") and cur is not None and not cur.is_client


class SimFile(io.RawIOBase):
    """A file being written: open, every flushed piece and close are separate steps."""

    def __init__(self, real: t.Any, name: str) -> None:
        self._r = real
        self._name = name

    def writable(self) -> bool:
        return True

    def readable(self) -> bool:
        return False

    def seekable(self) -> bool:
        return False

    def fileno(self) -> int:
        return self._r.fileno()

    def write(self, b: t.Any) -> int:
        w = t.cast(World, WORLD)
        data = bytes(b)
        w.sim.point("file.write")
        fs = w.fs
        if fs.enospc_after >= 0:
            room = fs.enospc_after - w.written
            if room <= 0:
                w.sim.fault("enospc", file=os.path.basename(self._name).rstrip("0123456789"))
                raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC))
            data = data[:room]
        if len(data) > 1 and fs.torn:
            cut = w.sim.ch.decide("fs.torn", len(data), lambda r: r.randrange(1, len(data)) if r.random() < fs.torn else 0)
            if cut:
                w.sim.faults["torn_write"] = w.sim.faults.get("torn_write", 0) + 1
                data = data[:cut]
        n = self._r.write(data)
        w.written += n
        w.sim.point("file.written")
        return n

    def close(self) -> None:
        if not self.closed:
            super().close()
            w = WORLD
            if w is not None and kernel.in_sim():
                w.sim.point("file.close")
            self._r.close()


def _open(file: t.Any, mode: str = "r", buffering: int = -1, encoding: t.Any = None, errors: t.Any = None,
          newline: t.Any = None, closefd: bool = True, opener: t.Any = None) -> t.Any:
    if isinstance(file, int) or not _ours(file):
        return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    w = t.cast(World, WORLD)
    w.sim.point("file.open")
    if not any(c in mode for c in "wax+"):
        return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    name = t.cast(str, _path_of(file))
    if name.endswith(".log"):
        return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    rawmode = mode.replace("t", "").replace("b", "") + "b"
    raw = real_open(file, rawmode, 0, opener=opener)
    w.sim.point("file.opened")
    return _wrap(raw, name, mode, encoding, errors, newline)


def _wrap(raw: t.Any, name: str, mode: str, encoding: t.Any, errors: t.Any, newline: t.Any) -> t.Any:
    sf = SimFile(raw, name)
    buf = io.BufferedWriter(sf)
    if "b" in mode:
        return buf
    return io.TextIOWrapper(buf, encoding or "utf-8", errors, newline)


def _mkstemp(*a: t.Any, **kw: t.Any) -> t.Any:
    if WORLD is not None and kernel.in_sim() and WORLD.sim.sysfail is not None:
        WORLD.sim.may_fail("mkstemp")
    return real_mkstemp(*a, **kw)


def _fdopen(fd: int, mode: str = "r", buffering: int = -1, encoding: t.Any = None, *a: t.Any, **kw: t.Any) -> t.Any:
    if WORLD is not None and kernel.in_sim() and any(c in mode for c in "wa"):
        try:
            name = os.readlink(f"/proc/self/fd/{fd}")
        except OSError:
            name = ""
        if name.startswith(WORLD.tmpdir + "/"):
            WORLD.sim.point("file.fdopen")
            raw = real_open(fd, "wb", 0)
            return _wrap(raw, name, mode, encoding, None, None)
    return real_fdopen(fd, mode, buffering, encoding, *a, **kw)


def _unlink(path: t.Any, *a: t.Any, **kw: t.Any) -> None:
    if _ours(path):
        t.cast(World, WORLD).sim.point("file.unlink")
    return real_unlink(path, *a, **kw)


def _replace(a: t.Any, b: t.Any, **kw: t.Any) -> None:
    if _ours(b):
        t.cast(World, WORLD).sim.point("file.replace")
    return real_replace(a, b, **kw)


def _rename(a: t.Any, b: t.Any, **kw: t.Any) -> None:
    if _ours(b):
        t.cast(World, WORLD).sim.point("file.rename")
    return real_rename(a, b, **kw)


def _fchmod(fd: int, mode: int) -> None:
    th = kernel.cur()
    if th is not None and kernel.in_sim() and fd in th.proc.fds:
        return None
    return real_fchmod(fd, mode)


def _os_close(fd: int) -> None:
    th = kernel.cur()
    if th is not None and kernel.in_sim() and fd in th.proc.fds:
        th.proc.close_fd(fd)
        return
    real_os_close(fd)


def _execve(path: t.Any, argv: t.Any, env: t.Any) -> None:
    if kernel.in_sim():
        t.cast(World, WORLD).sim.point("execve")
        raise kernel.SimExec(os.fspath(path), list(argv), dict(env))
    real_execve(path, argv, env)


def _run(args: t.Any, *a: t.Any, **kw: t.Any) -> t.Any:
    if kernel.in_sim():
        w = t.cast(World, WORLD)
        w.sim.point("subprocess.run")
        argv = [os.fspath(x) for x in args] if isinstance(args, (list, tuple)) else [args]
        if "config" in argv and "dump" in argv:
            w.sim.sleep(0.4)
            return subprocess.CompletedProcess(args, 0, w.config_dump, b"")
        raise OSError(errno.ENOENT, f"unexpected subprocess {argv}")
    return real_run(args, *a, **kw)


def _hard_exit(code: int) -> None:
    if kernel.in_sim():
        raise kernel.SimHardExit(code)
    os._exit_real(code)  # type: ignore[attr-defined]


_real_uuid4 = uuid.uuid4


def _uuid4() -> uuid.UUID:
    if kernel.in_sim() and WORLD is not None:
        return uuid.UUID(int=WORLD.rng.getrandbits(128), version=4)
    return _real_uuid4()


class _Names:
    def __init__(self, real: t.Any) -> None:
        self.real = real

    def __iter__(self) -> "_Names":
        return self

    def __next__(self) -> str:
        if WORLD is not None and kernel.in_sim():
            WORLD.names += 1
            return f"sim{WORLD.names:05d}"
        return next(self.real)


_installed = False


def install() -> None:
    global _installed
    if _installed:
        return
    _installed = True
    io.open = _open  # type: ignore[assignment]
    builtins.open = _open  # type: ignore[assignment]
    tempfile.mkstemp = _mkstemp  # type: ignore[assignment]
    os.fdopen = _fdopen  # type: ignore[assignment]
    os.unlink = _unlink  # type: ignore[assignment]
    os.remove = _unlink  # type: ignore[assignment]
    os.replace = _replace  # type: ignore[assignment]
    os.rename = _rename  # type: ignore[assignment]
    os.fchmod = _fchmod  # type: ignore[assignment]
    os.close = _os_close  # type: ignore[assignment]
    os.execve = _execve  # type: ignore[assignment]
    os._exit_real = os._exit  # type: ignore[attr-defined]
    os._exit = _hard_exit  # type: ignore[assignment]
    subprocess.run = _run  # type: ignore[assignment]
    uuid.uuid4 = _uuid4
    names = tempfile._get_candidate_names()  # type: ignore[attr-defined]
    wrapped = _Names(names)
    tempfile._get_candidate_names = lambda: wrapped  # type: ignore[attr-defined]
    sys.stdin = net.StdProxy("stdin", sys.stdin)  # type: ignore[assignment]
    sys.stdout = net.StdProxy("stdout", sys.stdout)  # type: ignore[assignment]
    sys.stderr = net.StdProxy("stderr", sys.stderr)  # type: ignore[assignment]


def use_tmpdir(path: str) -> None:
    os.makedirs(path, exist_ok=True)
    os.environ["TMPDIR"] = path
    tempfile.tempdir = path
