"""Scheduler, simulated processes and threads, virtual clock, event history.

Real Python threads run the real code, but exactly one of them holds the baton
at any moment; every hand-over is decided here by the Chooser.  Preemption
points are every simulated system call / lock operation and, through
sys.monitoring, every source line of ansibug itself.
"""

from __future__ import annotations

import _thread
import dis
import errno
import hashlib
import io
import os
import sys
import threading
import traceback
import types
import typing as t

from .choice import Chooser

NEW, RUNNABLE, BLOCKED, DONE = range(4)
_BIG = 1 << 60

STALLS = {2: 0.001, 3: 0.1, 4: 2.0, 5: 30.0}
K_YIELD, K_STARVE = 1, 6
N_PREEMPT = 7


class SimExec(BaseException):
    """os.execve called in a simulated process."""

    def __init__(self, path: str, argv: list[str], env: dict[str, str]) -> None:
        super().__init__(path)
        self.argv = list(argv)
        self.env = dict(env)


class SimHardExit(BaseException):
    """os._exit / os.abort called in a simulated process."""

    def __init__(self, code: int) -> None:
        super().__init__(code)
        self.code = code


_with_lines: dict[types.CodeType, frozenset[int]] = {}


def with_lines(code: types.CodeType) -> frozenset[int]:
    """The lines of the with statements: CPython checks for signals after calls,
    so it never raises KeyboardInterrupt between the body of a with statement
    and the call of its __exit__, which has a line event for the with line."""
    r = _with_lines.get(code)
    if r is None:
        r = _with_lines[code] = frozenset(
            i.positions.lineno for i in dis.get_instructions(code)
            if i.opname == "BEFORE_WITH" and i.positions and i.positions.lineno
        )
    return r


class SimThread:
    __slots__ = (
        "id", "name", "proc", "baton", "state", "deadline", "woken", "why", "gap", "gap_used",
        "pyobj", "daemon", "joiners", "pending_exc", "shielded", "prio", "starved", "stream", "target",
        "uncaught", "is_client", "lineno", "last_code", "blocked_since", "timer_id", "in_kernel", "aim",
    )

    def __init__(self, id: int, name: str, proc: "SimProcess", target: t.Callable[[], None], daemon: bool) -> None:
        self.id = id
        self.name = name
        self.proc = proc
        self.target = target
        self.daemon = daemon
        self.baton = _thread.allocate_lock()
        self.baton.acquire()
        self.state = NEW
        self.deadline: float | None = None
        self.woken = False
        self.why = ""
        self.gap = _BIG
        self.gap_used = 0
        self.pyobj: threading.Thread | None = None
        self.joiners: list[SimThread] = []
        self.pending_exc: BaseException | None = None
        self.shielded = False
        self.prio = 0
        self.starved = False
        self.stream = ""
        self.uncaught: BaseException | None = None
        self.is_client = False
        self.lineno = 0
        self.last_code: types.CodeType | None = None
        self.blocked_since = 0.0
        self.timer_id = 0
        self.in_kernel = 0
        self.aim: tuple[int, float, t.Callable[[], None]] | None = None

    def __repr__(self) -> str:
        return f"<T{self.id} {self.proc.name}/{self.name}>"


class SimProcess:
    def __init__(self, sim: "Sim", name: str, pid: int) -> None:
        self.sim = sim
        self.name = name
        self.pid = pid
        self.threads: list[SimThread] = []
        self.main: SimThread | None = None
        self.alive = True
        self.exit_code: int | None = None
        self.exit_how = ""
        self.fds: dict[int, t.Any] = {}
        self.atexit: list[tuple[t.Callable[..., t.Any], tuple[t.Any, ...], dict[str, t.Any]]] = []
        self.stdin: t.Any = None
        self.stdout: t.Any = None
        self.stderr_text = io.StringIO()
        self.stdout_text = io.StringIO()
        self.env: dict[str, str] = {}
        self.waiters: list[SimThread] = []
        self.finalizing = False
        self.on_exit: list[t.Callable[[], None]] = []

    def lowest_fd(self) -> int:
        fd = 1003
        while fd in self.fds:
            fd += 1
        return fd

    def add_fd(self, obj: t.Any) -> int:
        fd = self.lowest_fd()
        self.fds[fd] = obj
        obj.refs += 1
        return fd

    def close_fd(self, fd: int) -> None:
        obj = self.fds.pop(fd, None)
        if obj is None:
            raise OSError(9, "Bad file descriptor")
        obj.decref()

    def __repr__(self) -> str:
        return f"<P{self.pid} {self.name}>"


class Policy:
    """Per run (swarm) scheduling parameters, drawn from the seed by the scenario."""

    def __init__(self) -> None:
        self.p_line = 0.0  # preemption probability per source line
        self.p_sys = 0.0  # preemption probability per simulated system call / lock op
        self.kind_weights = [0, 6, 2, 1, 1, 0, 2]  # index = preempt kind
        self.p_pick = 0.0  # probability to pick a random runnable thread
        self.pct = False  # strict random priorities instead
        self.step_cap = 400_000
        self.tick = 2e-6
        self.starve_window = 1.0


class Event(t.NamedTuple):
    n: int
    t: float
    who: str
    kind: str
    data: dict[str, t.Any]


class SimStop(Exception):
    pass


class SysFail:
    def __init__(self, proc: str, call: str, nth: int, errno: int) -> None:
        self.proc, self.call, self.nth, self.errno = proc, call, nth, errno


class Sim:
    def __init__(self, chooser: Chooser, policy: Policy | None = None, verbose: bool = False) -> None:
        self.ch = chooser
        self.policy = policy or Policy()
        self.now = 1_000_000.0
        self.t0 = self.now
        self.threads: list[SimThread] = []
        self.procs: list[SimProcess] = []
        self.run_q: list[SimThread] = []
        self.sleepers: list[SimThread] = []
        self.current: SimThread | None = None
        self.steps = 0
        self.switches = 0
        self.preempts = 0
        self.stalled = 0.0
        self.stall_counts: dict[int, int] = {}
        self.history: list[Event] = []
        self.sysfail: SysFail | None = None
        self.watchers: list[t.Callable[[Event], None]] = []
        self.probe: t.Callable[[], None] | None = None  # looks at the world at every system call
        self.faults: dict[str, int] = {}
        self.ended = ""  # quiescent | step-cap | stop | harness
        self.harness_error = ""
        self._ctl = _thread.allocate_lock()
        self._ctl.acquire()
        self._next_pid = 4001
        self.sched_hash = hashlib.blake2b(digest_size=16)
        self.trace_hash = hashlib.blake2b(digest_size=16)
        self.sites: set[tuple[str, int, str]] = set()
        self.trace_lines: list[str] | None = [] if verbose else None
        self.time_limit = self.now + 7200.0
        self._name_count: dict[str, int] = {}
        self.actions: list[tuple[int, int, t.Callable[[], None]]] = []  # (step, id, fn) fault actions
        self._next_action = _BIG
        self.deterministic_ids = 0

    # ---------------------------------------------------------------- history

    def log(self, kind: str, /, **data: t.Any) -> Event:
        th = self.current
        who = f"{th.proc.name}/{th.name}" if th else "sim"
        ev = Event(len(self.history), self.now - self.t0, who, kind, data)
        self.history.append(ev)
        self.trace_hash.update(f"{who}|{kind}|{sorted(data)!r}".encode())
        if self.trace_lines is not None:
            self.trace_lines.append(f"[{ev.t:10.4f}] #{ev.n} {who}: {kind} {data}")
        for w in self.watchers:
            w(ev)
        return ev

    def fault(self, kind: str, **data: t.Any) -> None:
        self.faults[kind] = self.faults.get(kind, 0) + 1
        self.log("fault", fault=kind, **data)

    # -------------------------------------------------------------- processes

    def spawn(
        self,
        name: str,
        main: t.Callable[[], t.Any],
        *,
        client: bool = False,
        env: dict[str, str] | None = None,
        setup: t.Callable[[SimProcess], None] | None = None,
    ) -> SimProcess:
        proc = SimProcess(self, name, self._next_pid)
        self._next_pid += 7
        proc.env = dict(env or {})
        self.procs.append(proc)
        if setup:
            setup(proc)

        def _main() -> None:
            code = 0
            how = "exit"
            try:
                try:
                    r = main()
                    if isinstance(r, int):
                        code = r
                except SystemExit as e:
                    code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
                except SimHardExit:
                    raise
                except (KeyboardInterrupt, Exception) as e:
                    code = 1
                    how = "exception"
                    proc.stderr_text.write("".join(traceback.format_exception(e)))
                    self.log("proc.uncaught", proc=name, exc=type(e).__name__, text=str(e)[:300])
                # threading._shutdown(): join non daemon threads, then atexit.
                proc.finalizing = True
                try:
                    while True:
                        rest = [
                            x for x in proc.threads if x is not proc.main and not x.daemon and x.state != DONE
                        ]
                        if not rest:
                            break
                        self.wait_on(rest[0].joiners, f"shutdown-join {rest[0].name}")
                except KeyboardInterrupt:
                    pass
                while proc.atexit:
                    fn, a, kw = proc.atexit.pop()
                    try:
                        fn(*a, **kw)
                    except SimHardExit:
                        raise
                    except (SystemExit, KeyboardInterrupt, Exception) as e:
                        proc.stderr_text.write("".join(traceback.format_exception(e)))
                        self.log("proc.atexit_error", exc=type(e).__name__)
            except SimHardExit as e:
                code = e.code
                how = "hard-exit"
            self._proc_exit(proc, code, how)

        th = self.new_thread("main", proc, _main, daemon=False)
        th.is_client = client
        proc.main = th
        self.log("proc.start", proc=name, pid=proc.pid)
        self.start_thread(th)
        return proc

    def _proc_exit(self, proc: SimProcess, code: int, how: str) -> None:
        if not proc.alive:
            return
        proc.alive = False
        proc.exit_code = code
        proc.exit_how = how
        self.log("proc.exit", proc=proc.name, code=code, how=how)
        for th in proc.threads:
            if th is not self.current and th.state != DONE:
                self._remove(th)
                th.state = DONE
        for fd in sorted(proc.fds):
            obj = proc.fds.pop(fd)
            obj.force_release(proc)
            obj.decref()
        for pipe in (proc.stdin, proc.stdout):
            if pipe is not None:
                pipe.proc_closed()
        for fn in proc.on_exit:
            fn()
        self.wake_all(proc.waiters)

    def _remove(self, th: SimThread) -> None:
        if th in self.run_q:
            self.run_q.remove(th)
        if th in self.sleepers:
            self.sleepers.remove(th)

    def kill(self, proc: SimProcess, how: str = "killed", code: int = -9) -> None:
        """SIGKILL: no cleanup whatsoever, only the kernel closes descriptors."""
        if not proc.alive:
            return
        self._proc_exit(proc, code, how)
        cur = self.current
        if cur is not None and cur.proc is proc:
            cur.state = DONE
            self._switch_away(cur, park=True)

    def interrupt(self, proc: SimProcess) -> None:
        """SIGINT: KeyboardInterrupt in the main thread at its next safe point."""
        th = proc.main
        if th is None or not proc.alive or th.state == DONE:
            return
        th.pending_exc = KeyboardInterrupt()
        if th.state == BLOCKED:
            self.ready(th)

    # ---------------------------------------------------------------- threads

    def new_thread(self, name: str, proc: SimProcess, target: t.Callable[[], None], daemon: bool) -> SimThread:
        th = SimThread(len(self.threads), name, proc, target, daemon)
        base = f"{proc.name}/{name}"
        k = self._name_count[base] = self._name_count.get(base, 0) + 1
        th.stream = f"s:{base}" if k == 1 else f"s:{base}#{k}"
        self.threads.append(th)
        proc.threads.append(th)
        if self.policy.pct or self.ch.replaying:
            th.prio = self.ch.decide("prio", 1 << 20)
        self._arm(th)
        return th

    def _arm(self, th: SimThread) -> None:
        if th.is_client:
            th.gap = _BIG
            return
        g = self.ch.next_gap(th.stream, self.policy.p_line)
        th.gap_used = g
        th.gap = _BIG if g < 0 else g

    def start_thread(self, th: SimThread) -> None:
        th.state = RUNNABLE
        self.run_q.append(th)

        def boot() -> None:
            th.baton.acquire()
            if th.pyobj is not None:
                th.pyobj._ident = _thread.get_ident()  # type: ignore[attr-defined]
            try:
                th.target()
            except BaseException as e:  # pragma: no cover - harness problems
                if not isinstance(e, SimStop):
                    self.harness_fail("".join(traceback.format_exception(e)))
            finally:
                self._finish(th)

        _thread.start_new_thread(boot, ())

    def _finish(self, th: SimThread) -> None:
        th.state = DONE
        if th.pyobj is not None:
            th.pyobj._sim_done = True  # type: ignore[attr-defined]
        self.wake_all(th.joiners)
        self._dispatch(th, park=False)

    # -------------------------------------------------------------- scheduling

    def ready(self, th: SimThread, woken: bool = True) -> None:
        if th.state != BLOCKED:
            return
        th.state = RUNNABLE
        th.woken = woken
        if th.deadline is not None:
            th.deadline = None
            self.sleepers.remove(th)
        self.run_q.append(th)

    def wake_all(self, q: list[SimThread]) -> None:
        for th in q:
            self.ready(th)
        q.clear()

    def wake_one(self, q: list[SimThread]) -> None:
        while q:
            th = q.pop(0)
            if th.state == BLOCKED:
                self.ready(th)
                return

    def wait_on(self, q: list[SimThread], why: str, timeout: float | None = None) -> bool:
        return self.wait_many([q], why, timeout)

    def wait_many(self, qs: list[list[SimThread]], why: str, timeout: float | None = None) -> bool:
        th = self.current
        assert th is not None
        for q in qs:
            q.append(th)
        try:
            return self._block(th, why, timeout)
        finally:
            for q in qs:
                if th in q:
                    q.remove(th)

    def _block(self, th: SimThread, why: str, timeout: float | None) -> bool:
        if th.pending_exc is not None and not th.shielded:
            self._raise_pending(th)
        if timeout is not None and timeout <= 0:
            return False
        th.state = BLOCKED
        th.woken = False
        th.why = why
        th.blocked_since = self.now
        if timeout is not None:
            th.deadline = self.now + timeout
            self.deterministic_ids += 1
            th.timer_id = self.deterministic_ids
            self.sleepers.append(th)
        self._dispatch(th, park=True)
        if th.pending_exc is not None and not th.shielded:
            self._raise_pending(th)
        return th.woken

    def _raise_pending(self, th: SimThread) -> None:
        exc = th.pending_exc
        th.pending_exc = None
        names = []
        f = sys._getframe(1)
        while f is not None:
            names.append(f.f_code.co_name)
            f = f.f_back  # type: ignore[assignment]
        self.log("interrupt", stack=names[:30])
        assert exc is not None
        raise exc

    def sleep(self, secs: float) -> None:
        th = self.current
        assert th is not None
        if secs <= 0:
            self.yield_()
            return
        self._block(th, f"sleep {secs:g}", secs)

    def yield_(self) -> None:
        th = self.current
        assert th is not None
        th.state = RUNNABLE
        self.run_q.append(th)
        self._dispatch(th, park=True)
        if th.pending_exc is not None and not th.shielded:
            self._raise_pending(th)

    def point(self, what: str = "") -> None:
        """A simulated system call or lock operation: may be preempted here."""
        th = self.current
        if self.probe is not None:
            self.probe()
        if th is None or th.is_client:
            return
        if th.pending_exc is not None and not th.shielded:
            self._raise_pending(th)
        self._count()
        k = self.ch.preempt_kind(
            "sys", 0, N_PREEMPT, self._sys_policy
        )
        if k:
            self._preempt(th, k, what, 0)
        if self.sysfail is not None:
            self.may_fail(what)

    def may_fail(self, what: str) -> None:
        """The nth of some system call of one process fails."""
        th, sf = self.current, self.sysfail
        if sf is None or th is None or th.is_client or what != sf.call or th.proc.name != sf.proc:
            return
        sf.nth -= 1
        if sf.nth >= 0:
            return
        self.sysfail = None
        self.fault("failed_" + what, errno=errno.errorcode.get(sf.errno, str(sf.errno)))
        if what == "thread.start":
            raise RuntimeError("can't start new thread")
        raise OSError(sf.errno, os.strerror(sf.errno))

    def aim(self, th: SimThread, lines: int, seconds: float, fn: t.Callable[[], None]) -> None:
        """Hold th up for a while some lines further on, and do something meanwhile."""
        th.aim = (lines, seconds, fn)

    def _aimed(self, th: SimThread, code: types.CodeType, line: int) -> None:
        assert th.aim is not None
        left, seconds, fn = th.aim
        if left:
            th.aim = (left - 1, seconds, fn)
            return
        th.aim = None
        where = code.co_qualname
        if self.trace_lines is not None:
            self.trace_lines.append(f"[{self.now - self.t0:10.4f}] {th.proc.name}/{th.name} held up at {where}:{line}")
        if len(self.sites) < 20000:
            self.sites.add((where, line, th.name))
        fn()
        self.stalled += seconds
        self.fault("held_up")
        if th is th.proc.main:
            th.shielded = line in with_lines(code)
        try:
            self._block(th, f"held up {seconds:g}s at {where}:{line}", seconds)
        finally:
            shielded, th.shielded = th.shielded, False
        if th.pending_exc is not None and not shielded:
            self._raise_pending(th)

    def _sys_policy(self, r: t.Any) -> int:
        if r.random() >= self.policy.p_sys:
            return 0
        return self._kind_policy(r)

    def _kind_policy(self, r: t.Any) -> int:
        w = self.policy.kind_weights
        x = r.random() * sum(w)
        for i, v in enumerate(w):
            x -= v
            if x < 0:
                return i
        return 0

    def on_line(self, code: types.CodeType, line: int) -> None:
        th = self.current
        if th is None or th.is_client or th.in_kernel:
            return
        if th.pending_exc is not None and line not in with_lines(code):
            self._raise_pending(th)
        self._count()
        if th.aim is not None:
            self._aimed(th, code, line)
        g = th.gap
        if g > 0:
            th.gap = g - 1
            return
        k = self.ch.preempt_kind(th.stream, th.gap_used, N_PREEMPT, self._kind_policy)
        self._arm(th)
        if k:
            if th is th.proc.main:
                th.shielded = line in with_lines(code)
            try:
                self._preempt(th, k, code.co_qualname, line)
            finally:
                th.shielded = False

    def _count(self) -> None:
        self.steps += 1
        self.now += self.policy.tick
        if self.steps >= self._next_action:
            self._run_actions()
        if self.steps > self.policy.step_cap:
            self.stop("step-cap")

    def at_step(self, step: int, fn: t.Callable[[], None]) -> None:
        self.actions.append((step, len(self.actions), fn))
        self.actions.sort(key=lambda x: (x[0], x[1]))
        self._next_action = self.actions[0][0]

    def _run_actions(self) -> None:
        while self.actions and self.actions[0][0] <= self.steps:
            _, _, fn = self.actions.pop(0)
            self._next_action = self.actions[0][0] if self.actions else _BIG
            fn()

    def _preempt(self, th: SimThread, kind: int, where: str, line: int) -> None:
        self.preempts += 1
        if len(self.sites) < 20000:
            self.sites.add((where, line, th.name))
        if self.trace_lines is not None:
            self.trace_lines.append(
                f"[{self.now - self.t0:10.4f}] preempt {th.proc.name}/{th.name} at {where}:{line} kind {kind}"
            )
        if kind == K_YIELD:
            self.yield_()
        elif kind == K_STARVE:
            th.starved = True
            self.yield_()
        else:
            self.stalled += STALLS[kind]
            self.stall_counts[kind] = self.stall_counts.get(kind, 0) + 1
            self._block(th, f"stall {STALLS[kind]:g}s at {where}:{line}", STALLS[kind])
        if th.pending_exc is not None and not th.shielded:
            self._raise_pending(th)

    def _pick(self) -> SimThread | None:
        while True:
            q = self.run_q
            if q:
                fresh = [x for x in q if not x.starved]
                if fresh:
                    if len(fresh) == 1:
                        th = fresh[0]
                    else:
                        i = self.ch.decide("pick", len(fresh), lambda r: self._pick_policy(r, fresh))
                        th = fresh[i]
                    q.remove(th)
                    return th
                # Only starved threads are runnable: let near timers (and so the
                # rest of the system) go first, then let one of them run.
                nxt = self._next_timer()
                if nxt is not None and nxt - self.now < self.policy.starve_window and self.ch.decide("starve", 2, lambda r: r.randrange(2)):
                    self._advance()
                    continue
                th = q.pop(0)
                th.starved = False
                return th
            if not self._advance():
                return None

    def _pick_policy(self, r: t.Any, fresh: list[SimThread]) -> int:
        if self.policy.pct:
            best = 0
            for i, x in enumerate(fresh):
                if x.prio > fresh[best].prio:
                    best = i
            # occasional priority change point
            if r.random() < 0.01:
                fresh[best].prio = -self.switches
            return best
        if r.random() < self.policy.p_pick:
            return r.randrange(len(fresh))
        return 0

    def _next_timer(self) -> float | None:
        return min((x.deadline for x in self.sleepers if x.deadline is not None), default=None)

    def _advance(self) -> bool:
        nxt = self._next_timer()
        if nxt is None:
            return False
        if nxt > self.time_limit:
            return False
        if nxt > self.now:
            self.now = nxt
        due = [x for x in self.sleepers if x.deadline is not None and x.deadline <= self.now]
        due.sort(key=lambda x: (x.deadline, x.timer_id))
        for th in due:
            self.ready(th, woken=False)
        return True

    def _dispatch(self, me: SimThread, park: bool) -> None:
        """Hands the baton to the next thread, and waits for it to come back."""
        nxt = self._pick()
        if nxt is None:
            self.current = None
            if not self.ended:
                self.ended = "quiescent"
            self._ctl.release()
            if park:
                me.baton.acquire()  # never released: the run is over
            return
        if nxt is me:
            self.current = me
            return
        self.switches += 1
        self.sched_hash.update(b"%d>%d," % (me.id, nxt.id))
        self.trace_hash.update(b"%d>%d@%d," % (me.id, nxt.id, self.steps))
        self.current = nxt
        nxt.baton.release()
        if park:
            me.baton.acquire()

    def _switch_away(self, me: SimThread, park: bool) -> None:
        self._dispatch(me, park=park)

    def stop(self, why: str) -> None:
        """Ends the run from inside a simulated thread."""
        if not self.ended:
            self.ended = why
        me = self.current
        self.current = None
        self._ctl.release()
        if me is not None:
            me.baton.acquire()  # parks forever

    def harness_fail(self, text: str) -> None:
        if not self.harness_error:
            self.harness_error = text
        if not self.ended:
            self.stop("harness")

    def run(self, wall: float = 60.0) -> str:
        """Runs until nothing is left to happen. Called from the controller."""
        nxt = self._pick()
        if nxt is None:
            return "quiescent"
        self.current = nxt
        nxt.baton.release()
        if not self._ctl.acquire(timeout=wall):
            self.ended = "wall"
            frames = sys._current_frames()
            self.harness_error = "wall clock limit\n" + "\n".join(
                "".join(traceback.format_stack(f)) for f in frames.values()
            ) + f"\nat {self.now - self.t0:.4f}\n" + "\n".join(
                [f"{th.proc.name}/{th.name}: {th.state} {th.why}" for th in self.threads if th.state != DONE]
                + [f"{ev.t:.4f} {ev.who} {ev.kind} {str(ev.data)[:150]}" for ev in self.history[-12:]])
        return self.ended

    # ------------------------------------------------------------------ helpers

    def client_wait(self, cond: t.Callable[[], bool], q: list[SimThread], timeout: float) -> bool:
        end = self.now + timeout
        while not cond():
            left = end - self.now
            if left <= 0 or not self.wait_on(q, "client", left):
                return cond()
        return True


SIM: Sim | None = None


def set_sim(sim: Sim | None) -> None:
    global SIM
    SIM = sim


def cur() -> SimThread | None:
    return SIM.current if SIM is not None else None


def in_sim() -> bool:
    return SIM is not None and SIM.current is not None and not _on_controller()


_controller_ident = _thread.get_ident()


def _on_controller() -> bool:
    return _thread.get_ident() == _controller_ident


def mark_controller() -> None:
    global _controller_ident
    _controller_ident = _thread.get_ident()


_TOOL = 4
_instrumented: set[t.Any] = set()


def _line_cb(code: types.CodeType, line: int) -> None:
    s = SIM
    if s is not None and s.current is not None:
        s.on_line(code, line)


def instrument(prefixes: tuple[str, ...]) -> int:
    """Turns every source line of code under prefixes into a preemption point."""
    import gc

    mon = sys.monitoring
    if mon.get_tool(_TOOL) is None:
        mon.use_tool_id(_TOOL, "ansibug-sim")
        mon.register_callback(_TOOL, mon.events.LINE, _line_cb)

    def walk(code: types.CodeType) -> None:
        if code in _instrumented:
            return
        # code objects compare by value: identity matters here
        if code.co_flags & 0x1:
            mon.set_local_events(_TOOL, code, mon.events.LINE)
        for c in code.co_consts:
            if isinstance(c, types.CodeType):
                walk(c)

    n = 0
    for o in gc.get_objects():
        if isinstance(o, types.FunctionType):
            code = o.__code__
            if code.co_filename.startswith(prefixes):
                walk(code)
                n += 1
    return n
