"""Simulated locks, threads and clocks, installed over the standard modules.

threading.Condition, threading.Event, queue.Queue and friends keep their real
implementation: only the lock they are made of, thread creation and the clock
are replaced.
"""

from __future__ import annotations

import _thread
import atexit
import os
import queue
import sys
import threading
import time
import traceback
import typing as t

from . import kernel
from .kernel import BLOCKED, DONE, SimProcess, SimThread

real_allocate = _thread.allocate_lock
real_time = time.time
real_monotonic = time.monotonic
real_perf = time.perf_counter
real_sleep = time.sleep
real_getpid = os.getpid
_patched = False


class SimLock:
    """threading.Lock."""

    __slots__ = ("_locked", "_q", "owner")

    def __init__(self) -> None:
        self._locked = False
        self._q: list[SimThread] = []
        self.owner: SimThread | None = None

    def acquire(self, blocking: bool = True, timeout: float = -1) -> bool:
        sim = kernel.SIM
        if sim is None or sim.current is None:
            if self._locked:
                if blocking:
                    raise RuntimeError("SimLock contention outside the simulation")
                return False
            self._locked = True
            return True
        if not blocking and timeout != -1:
            raise ValueError("can't specify a timeout for a non-blocking call")
        sim.point("lock.acquire")
        end = None if timeout is None or timeout < 0 else sim.now + timeout
        while self._locked:
            if not blocking:
                return False
            left = None if end is None else end - sim.now
            if left is not None and left <= 0:
                return False
            sim.wait_on(self._q, "lock", left)
        self._locked = True
        self.owner = sim.current
        return True

    def release(self) -> None:
        if not self._locked:
            raise RuntimeError("release unlocked lock")
        self._locked = False
        self.owner = None
        sim = kernel.SIM
        if sim is not None and sim.current is not None:
            sim.wake_one(self._q)
            sim.point("lock.release")

    def locked(self) -> bool:
        return self._locked

    def _at_fork_reinit(self) -> None:
        self._locked = False
        self._q = []

    def __enter__(self) -> bool:
        return self.acquire()

    def __exit__(self, *a: t.Any) -> None:
        self.release()


class SimRLock:
    __slots__ = ("_block", "_owner", "_count")

    def __init__(self) -> None:
        self._block = SimLock()
        self._owner: t.Any = None
        self._count = 0

    def _me(self) -> t.Any:
        return kernel.SIM.current if kernel.in_sim() else _thread.get_ident()  # type: ignore[union-attr]

    def acquire(self, blocking: bool = True, timeout: float = -1) -> bool:
        me = self._me()
        if self._owner == me:
            self._count += 1
            return True
        rc = self._block.acquire(blocking, timeout)
        if rc:
            self._owner = me
            self._count = 1
        return rc

    __enter__ = acquire

    def release(self) -> None:
        if self._owner != self._me():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None
            self._block.release()

    def __exit__(self, *a: t.Any) -> None:
        self.release()

    def _at_fork_reinit(self) -> None:
        self._block._at_fork_reinit()
        self._owner = None
        self._count = 0

    def _acquire_restore(self, state: t.Any) -> None:
        self._block.acquire()
        self._count, self._owner = state

    def _release_save(self) -> t.Any:
        if self._count == 0:
            raise RuntimeError("cannot release un-acquired lock")
        state = (self._count, self._owner)
        self._count = 0
        self._owner = None
        self._block.release()
        return state

    def _is_owned(self) -> bool:
        return self._owner == self._me()


def _lock_factory() -> t.Any:
    if kernel.in_sim():
        return SimLock()
    return real_allocate()


_real_rlock = threading.RLock


def _rlock_factory() -> t.Any:
    if kernel.in_sim():
        return SimRLock()
    return _real_rlock()


# --------------------------------------------------------------------- threads

_real_start = threading.Thread.start
_real_join = threading.Thread.join
_real_alive = threading.Thread.is_alive


def _thread_start(self: threading.Thread) -> None:
    sim = kernel.SIM
    if not kernel.in_sim():
        return _real_start(self)
    assert sim is not None
    if getattr(self, "_sim", None) is not None:
        raise RuntimeError("threads can only be started once")
    cur = sim.current
    assert cur is not None
    sim.point("thread.start")
    proc = cur.proc
    if proc.finalizing and False:
        raise RuntimeError("can't create new thread at interpreter shutdown")

    def target() -> None:
        try:
            self.run()
        except (SystemExit, kernel.SimStop):
            pass
        except kernel.SimHardExit as e:
            sim._proc_exit(proc, e.code, "hard-exit")
        except BaseException as e:
            th.uncaught = e
            tb = "".join(traceback.format_exception(e))
            proc.stderr_text.write(tb)
            sim.log("thread.uncaught", proc=proc.name, thread=self.name, exc=type(e).__name__, text=str(e)[:300], tb=tb)

    base = self.name
    if base.startswith("Thread-"):
        base = "Thread"
    th = sim.new_thread(base, proc, target, self.daemon)
    th.pyobj = self
    self._sim = th  # type: ignore[attr-defined]
    self._sim_done = False  # type: ignore[attr-defined]
    # atomic, the same as seen by a parent that is interrupted while it waits for it
    self._started._flag = True  # type: ignore[attr-defined]
    sim.start_thread(th)
    sim.point("thread.started")


def _thread_join(self: threading.Thread, timeout: float | None = None) -> None:
    th: SimThread | None = getattr(self, "_sim", None)
    sim = kernel.SIM
    if th is None or sim is None or not kernel.in_sim():
        if kernel.in_sim():
            if not self._initialized:  # type: ignore[attr-defined]
                raise RuntimeError("Thread.__init__() not called")
            raise RuntimeError("cannot join thread before it is started")
        return _real_join(self, timeout)
    if th is sim.current:
        raise RuntimeError("cannot join current thread")
    sim.point("thread.join")
    if timeout is None:
        while th.state != DONE:
            sim.wait_on(th.joiners, f"join {th.name}")
    else:
        end = sim.now + max(timeout, 0)
        while th.state != DONE and end > sim.now:
            sim.wait_on(th.joiners, f"join {th.name}", end - sim.now)


def _thread_alive(self: threading.Thread) -> bool:
    th: SimThread | None = getattr(self, "_sim", None)
    if th is None:
        if isinstance(self, MainThreadObj):
            return True
        if kernel.in_sim() and not isinstance(self, threading._MainThread):  # type: ignore[attr-defined]
            return False
        return _real_alive(self)
    return th.state != DONE


_real_current = threading.current_thread


class MainThreadObj(threading.Thread):
    """What threading.current_thread() gives in the main thread of a simulated process."""

    def __init__(self) -> None:
        threading.Thread.__init__(self, name="MainThread", daemon=False)
        self._started._flag = True  # type: ignore[attr-defined]
        self._ident = _thread.get_ident()


def _current_thread() -> threading.Thread:
    # threading's own table is by thread identifier; the system reuses those
    # at moments the simulator does not control
    if not kernel.in_sim():
        return _real_current()
    th = kernel.SIM.current  # type: ignore[union-attr]
    assert th is not None
    if th.pyobj is None:
        th.pyobj = MainThreadObj()
    return th.pyobj


# ----------------------------------------------------------------------- clock


def _now() -> float:
    if kernel.in_sim():
        return kernel.SIM.now  # type: ignore[union-attr]
    return real_monotonic()


def _wall() -> float:
    if kernel.in_sim():
        sim = kernel.SIM
        return 1_700_000_000.0 + sim.now + getattr(sim, "wall_skew", 0.0)  # type: ignore[union-attr]
    return real_time()


def _sleep(secs: float) -> None:
    if kernel.in_sim():
        kernel.SIM.sleep(secs)  # type: ignore[union-attr]
    else:
        real_sleep(secs)


def _getpid() -> int:
    th = kernel.cur()
    if th is not None and kernel.in_sim():
        return th.proc.pid
    return real_getpid()


_real_register = atexit.register
_real_unregister = atexit.unregister


def _atexit_register(fn: t.Callable[..., t.Any], *a: t.Any, **kw: t.Any) -> t.Any:
    th = kernel.cur()
    if th is not None and kernel.in_sim():
        th.proc.atexit.append((fn, a, kw))
        return fn
    return _real_register(fn, *a, **kw)


def _atexit_unregister(fn: t.Callable[..., t.Any]) -> None:
    th = kernel.cur()
    if th is not None and kernel.in_sim():
        th.proc.atexit[:] = [x for x in th.proc.atexit if x[0] != fn]
        return
    _real_unregister(fn)


def _excepthook_cur() -> t.Any:
    return None


def install() -> None:
    global _patched
    if _patched:
        return
    _patched = True
    threading._allocate_lock = _lock_factory  # type: ignore[attr-defined]
    threading.Lock = _lock_factory  # type: ignore[assignment,misc]
    threading.RLock = _rlock_factory  # type: ignore[assignment]
    threading.Thread.start = _thread_start  # type: ignore[method-assign]
    threading.Thread.join = _thread_join  # type: ignore[method-assign]
    threading.Thread.is_alive = _thread_alive  # type: ignore[method-assign]
    threading.current_thread = _current_thread
    threading._time = _now  # type: ignore[attr-defined]
    queue.time = _now  # type: ignore[attr-defined]
    queue.SimpleQueue = queue._PySimpleQueue  # type: ignore[attr-defined,misc]
    time.time = _wall  # type: ignore[assignment]
    time.monotonic = _now  # type: ignore[assignment]
    time.perf_counter = _now  # type: ignore[assignment]
    time.sleep = _sleep  # type: ignore[assignment]
    os.getpid = _getpid  # type: ignore[assignment]
    atexit.register = _atexit_register  # type: ignore[assignment]
    atexit.unregister = _atexit_unregister  # type: ignore[assignment]
