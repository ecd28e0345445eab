"""The debug channel on its own: the real queue and socket classes, two processes, faults.

"deliver" judges C18, "cancel" judges C19.
"""

from __future__ import annotations

import errno
import os
import typing as t

from . import env as E
from . import kernel, tls
from .choice import Chooser
from .session import Profile, draw_policy

FOREVER = 1e9


class Side:
    """What one end of the channel did and saw."""

    def __init__(self, name: str) -> None:
        self.name = name
        self.sent: list[t.Any] = []  # handed to send()
        self.send_ok = 0
        self.send_exc: BaseException | None = None
        self.got: list[t.Any] = []
        self.closed: list[tuple[float, BaseException | None]] = []
        self.late: list[t.Any] = []  # received after the end was announced
        self.started = False
        self.start_exc: BaseException | None = None
        self.stopped = False
        self.stop_exc: BaseException | None = None
        self.slow = 0.0
        self.proc: kernel.SimProcess | None = None


def short(m: t.Any) -> str:
    s = repr(m)
    return s if len(s) < 90 else f"{s[:60]}...({len(s)})"


def same(a: t.Any, b: t.Any) -> bool:
    return type(a) is type(b) and a == b


class Base:
    def __init__(self, name: str, **kw: t.Any) -> None:
        self.name = name
        self.prof = Profile(name, **kw)

    def run(self, ch: Chooser, base: str, slot: str, dump: bytes, verbose: bool) -> dict[str, t.Any]:
        self.ch = ch
        self.env = E.Env(ch, base, slot, dump, verbose)
        self.sim = self.env.sim
        self.viol: list[tuple[str, str, str, int]] = []
        self.counts: dict[str, int] = {}
        self.cfg: dict[str, t.Any] = {}
        self.q: list[kernel.SimThread] = []
        draw_policy(ch, self.prof, self.sim.policy)
        np = self.env.net.policy
        if ch.flip("cfg", 0.6):
            np.p_short_read = [0.02, 0.3, 0.8][ch.decide("cfg", 3)]
            np.p_short_write = [0.02, 0.3, 0.8][ch.decide("cfg", 3)]
        np.capacity = [200_000, 4096, 600, 64][ch.decide("cfg", 4)]
        np.p_short_write = min(np.p_short_write, 0.3)
        self.kind = ["uds", "tcp"][ch.decide("cfg", 2)]
        if self.kind == "tcp":
            np.latency = [0.0, 0.001, 0.05, 0.4][ch.decide("cfg", 4)]
            np.jitter = np.latency * [0.0, 0.5, 2][ch.decide("cfg", 3)]
            np.connect_latency = [0.0, 0.01, 0.5][ch.decide("cfg", 3)]
        self.addr = {"uds": "uds://" + os.path.join(self.env.tmp, "chan"), "tcp": "tcp://"}[self.kind]
        self.build()
        end = self.sim.run(60)
        if end in ("wall", "harness"):
            raise E.HarnessError(self.sim.harness_error)
        self.end = end
        self.judge()
        res = {"sim": self.sim, "viol": self.viol, "counts": self.counts, "detail": "",
               "cfg": " ".join(f"{k}={v}" for k, v in self.cfg.items()),
               "probes": [f"{k}:{v}" for k, v in self.cfg.items() if isinstance(v, (str, bool))]}
        if verbose:
            res["detail"] = self.detail()
        self.env.close()
        return res

    def detail(self) -> str:
        out = f"end={self.end} {self.cfg}\n"
        for p in self.sim.procs:
            e = p.stderr_text.getvalue()
            if e:
                out += f"--- stderr of {p.name}\n{e}"
        return out

    def bad(self, prop: str, what: str, msg: str) -> None:
        self.viol.append((prop, what, msg, len(self.sim.history) - 1))

    def count(self, k: str, n: int = 1) -> None:
        self.counts[k] = self.counts.get(k, 0) + n

    def wake(self) -> None:
        self.sim.wake_all(self.q)

    def until(self, cond: t.Callable[[], bool], timeout: float = FOREVER) -> bool:
        end = self.sim.now + timeout
        while not cond():
            left = end - self.sim.now
            if left <= 0:
                return False
            self.sim.wait_on(self.q, "harness", left)
        return True

    def check_threads(self, prop: str) -> None:
        """Threads of the code under test that ended by an exception of their own."""
        for ev in self.sim.history:
            if ev.kind in ("thread.uncaught", "proc.uncaught"):
                self.bad(prop, "uncaught", f"uncaught {ev.data.get('exc')} in {ev.who}: {ev.data.get('text')}")

    def build(self) -> None:
        raise NotImplementedError

    def judge(self) -> None:
        raise NotImplementedError

    # ------------------------------------------------------------------ parts

    def proto(self, side: Side) -> t.Callable[[], t.Any]:
        from ansibug._mp_queue import MPProtocol

        outer = self

        class Proto(MPProtocol):
            def on_msg_received(self, msg: t.Any) -> None:
                (side.late if side.closed else side.got).append(msg)
                outer.wake()
                if side.slow:
                    outer.sim.sleep(side.slow)

            def connection_closed(self, exp: BaseException | None) -> None:
                side.closed.append((outer.sim.now, exp))
                outer.sim.log("chan.closed", side=side.name, exp=repr(exp)[:200])
                outer.wake()

        p = Proto()
        return lambda: p

    def contexts(self) -> tuple[t.Any, t.Any]:
        if not self.cfg.get("tls"):
            return None, None
        return tls.server_context(), tls.client_context()

    def target(self, address: str) -> str:
        """The address to connect to for a server that says it is at address."""
        if self.kind == "uds":
            return address
        return f"tcp://localhost:{address.rsplit(':', 1)[1]}"


class Deliver(Base):
    """Two ends send each other messages; nothing, a stop, a kill or a reset ends it."""

    def message(self) -> t.Any:
        from ansibug import dap

        ch = self.ch
        big = self.env.net.policy.capacity > 1000
        k = ch.weighted("msg", [5, 3, 2, 1, 0.4] if big else [5, 3, 0.5, 0, 0])
        size = [ch.decide("msg", 60), 200 + ch.decide("msg", 3000), 4000 + ch.decide("msg", 400), 65_000 + ch.decide("msg", 2000),
                150_000 + ch.decide("msg", 200_000)][k]
        unit = ["a", "\0", "é", "\n\U0001f600"][ch.decide("msg", 4)]
        text = (unit * (size // len(unit) + 1))[:size]
        n = self.n_msgs
        self.n_msgs += 1
        kind = ch.decide("msg", 4)
        if kind == 0:
            return dap.OutputEvent(category="c", output=text, data=n)
        if kind == 1:
            return dap.ErrorResponse(command=f"c{n}", request_seq=n, message=text)
        if kind == 2:
            return dap.EvaluateResponse(request_seq=n, result=text, type=str(n))
        return dap.EvaluateRequest(expression=text, frame_id=n)

    def build(self) -> None:
        ch, sim = self.ch, self.sim
        self.n_msgs = 1
        self.mode = ["drain", "rude", "kill", "reset"][ch.weighted("cfg", [3, 3, 2, 2])]
        self.cfg.update(kind=self.kind, mode=self.mode, tls=ch.flip("cfg", 0.25))
        np = self.env.net.policy
        if self.cfg["tls"] and np.latency > 0.01:
            np.capacity = max(np.capacity, 4096)  # the handshake has to fit in its time
        self.srv, self.cli = Side("server"), Side("client")
        self.sides = [self.srv, self.cli]
        one_way = self.mode == "rude"
        first = ch.decide("cfg", 2)  # who ends it
        self.ender, self.other = (self.srv, self.cli) if first else (self.cli, self.srv)
        self.msgs: dict[str, list[t.Any]] = {}
        for s in self.sides:
            n = 0 if one_way and s is self.other else ch.decide("cfg", 9)
            if ch.flip("cfg", 0.1):
                n *= 4
            self.msgs[s.name] = [self.message() for _ in range(n)]
            s.slow = [0.0, 0.01, 3.0][ch.weighted("cfg", [4, 1, 0.5])]
        self.cfg["msgs"] = tuple(len(self.msgs[s.name]) for s in self.sides)
        self.address = ""
        self.fault_done = False
        self.srv.proc = sim.spawn("server", self._server)
        self.cli.proc = sim.spawn("client", self._client)
        for s in self.sides:
            t.cast(kernel.SimProcess, s.proc).on_exit.append(self.wake)
        if self.mode in ("kill", "reset"):
            at = ch.decide("end", 3)
            step = [ch.decide("end", 400), ch.decide("end", 3000), ch.decide("end", 9000)][at]
            sim.at_step(step, self._fault)

    def _fault(self) -> None:
        sim = self.sim
        if self.mode == "kill":
            p = self.ender.proc
            if p is not None and p.alive:
                self.fault_done = True
                sim.fault("kill_" + self.ender.name)
                sim.kill(p)
        else:
            ks = [k for k in self.env.net.all if k.state == "connected" and k.peer is not None]
            if ks:
                self.fault_done = True
                sim.fault("connection_reset")
                for k in ks:
                    k.reset()
        self.wake()

    def _server(self) -> None:
        from ansibug._mp_queue import ServerMPQueue

        q = ServerMPQueue(self.addr, proto=self.proto(self.srv), ssl_context=self.contexts()[0])
        self.address = q.address
        self.wake()
        self._side(q, self.srv, self.cli)

    def _client(self) -> None:
        from ansibug._mp_queue import ClientMPQueue

        self.until(lambda: bool(self.address) or not t.cast(t.Any, self.srv.proc).alive)
        if not self.address:
            return
        q = ClientMPQueue(self.target(self.address), proto=self.proto(self.cli), ssl_context=self.contexts()[1])
        self._side(q, self.cli, self.srv)

    def _side(self, q: t.Any, me: Side, peer: Side) -> None:
        from ansibug._socket_helper import CancelledError

        try:
            try:
                q.start(timeout=0)
                me.started = True
            except (OSError, CancelledError) as e:
                me.start_exc = e
                return
            for m in self.msgs[me.name]:
                me.sent.append(m)
                try:
                    q.send(m)
                except (OSError, CancelledError) as e:
                    me.send_exc = e
                    break
                me.send_ok += 1
                if self.ch.flip("pace", 0.1):
                    self.sim.sleep(0.01)
            if self.mode == "drain":
                # both know that everything arrived, then both stop, in any order
                self.until(lambda: me.closed != [] or all(
                    len(a.got) >= len(self.msgs[b.name]) and a.send_ok == len(self.msgs[a.name]) and a.started
                    for a, b in ((me, peer), (peer, me))))
            elif self.mode == "rude" and me is self.ender:
                pass
            else:
                # without the planned fault one of them stops in the end
                self.until(lambda: me.closed != [], 500.0 if me is self.ender else FOREVER)
        finally:
            try:
                q.stop()
                me.stopped = True
            except Exception as e:
                me.stop_exc = e
            self.wake()

    def judge(self) -> None:
        # a peer that is stalled for long enough misses the time for the handshake
        full = self.mode in ("drain", "rude") and not (self.cfg["tls"] and self.sim.stalled > 5)
        for me, peer in ((self.srv, self.cli), (self.cli, self.srv)):
            killed = me.proc is not None and me.proc.exit_how == "killed"
            self.count("c18.received", len(me.got))
            for i, m in enumerate(me.got):
                if i >= len(peer.sent):
                    self.bad("C18", "extra", f"{me.name} received message {i + 1} but {peer.name} sent only {len(peer.sent)}")
                    break
                if not same(m, peer.sent[i]):
                    self.bad("C18", "altered", f"message {i + 1} to {me.name} is {short(m)} but {short(peer.sent[i])} was sent")
                    break
            if me.late:
                self.bad("C18", "late", f"{me.name} received a message after it was told that the connection is closed")
            if full:
                if me.start_exc or me.send_exc:
                    self.bad("C18", "failed", f"{me.name}: {me.start_exc or me.send_exc!r} without any fault")
                elif len(me.got) < len(peer.sent) and len(me.got) < peer.send_ok:
                    self.bad("C18", "lost", f"{me.name} received {len(me.got)} of {peer.send_ok} messages")
                elif not me.started:
                    self.bad("C18", "stuck", f"{me.name} never connected")
            if killed:
                continue
            if me.started:
                self.count("c18.ended")
                if len(me.closed) != 1:
                    self.bad("C18", "end", f"{me.name} learned {len(me.closed)} times of the end of the connection")
                elif full and me.closed[0][1] is not None and not self.cfg["tls"] and not (self.mode == "rude" and me is self.ender):
                    self.bad("C18", "end-error", f"{me.name} was told of the end by {me.closed[0][1]!r} without any fault")
            if me.stop_exc:
                self.bad("C18", "stop", f"stop() of {me.name} raised {me.stop_exc!r}")
            if me.proc is not None and me.proc.alive:
                # nobody else comes to a server whose only client failed
                never = (self.fault_done or not full) and me is self.srv and not me.started and peer.proc is not None and not peer.proc.alive
                if not never:
                    self.bad("C18", "stuck", f"{me.name} never finished")
        self.check_threads("C18")

    def detail(self) -> str:
        out = super().detail()
        for s in self.sides:
            out += (f"{s.name}: sent={len(s.sent)} ok={s.send_ok} exc={s.send_exc!r} got={len(s.got)} closed={s.closed} start={s.started}"
                    f" {s.start_exc!r} stopped={s.stopped} {s.stop_exc!r}\n")
        return out


class Call:
    def __init__(self, what: str, begin: float) -> None:
        self.what = what
        self.begin = begin
        self.end: float | None = None
        self.exc: BaseException | None = None


class Cancel(Base):
    """One end is blocked in an operation, others cancel it."""

    ops = ["accept", "connect", "ack", "recv", "send", "handshake_s", "handshake_c"]

    def build(self) -> None:
        ch, sim = self.ch, self.sim
        self.op = self.ops[ch.decide("cfg", len(self.ops))]
        if self.op == "connect":
            self.kind = "tcp"
            self.addr = "tcp://"
        self.how = ["cancel", "stop"][ch.weighted("cfg", [2, 1])]
        self.who = 1 + ch.decide("cfg", 3)  # how many cancel
        self.peer_acts = [0.0, 0.01, 100.0][ch.decide("cfg", 3)] if ch.flip("cfg", 0.4) else -1.0
        self.timed = ch.flip("cfg", 0.2)
        self.via = ch.flip("cfg", 0.3)  # accept also watches another queue
        self.cfg.update(kind=self.kind, op=self.op, how=self.how, who=self.who, peer=self.peer_acts, timed=self.timed,
                        tls=self.op.startswith("handshake") or self.op not in ("accept", "connect") and ch.flip("cfg", 0.15))
        np = self.env.net.policy
        if self.cfg["tls"] and np.latency > 0.01:
            np.capacity = max(np.capacity, 4096)
        self.server = self.op in ("accept", "handshake_s") or self.op in ("recv", "send") and ch.flip("cfg", 0.5)
        self.side = Side("main")
        self.calls: list[Call] = []
        self.cancels: list[Call] = []
        self.address = ""
        self.ready = False  # the operation to be cancelled is about to begin
        self.cancel_end: float | None = None
        self.queue: t.Any = None
        self.token: t.Any = None
        self.peer_conns: list[t.Any] = []
        self.main = sim.spawn("main", self._main)
        self.peer = sim.spawn("peer", self._peer, client=True)

    # the process under test
    def _call(self, what: str, fn: t.Callable[[], t.Any]) -> Call:
        c = Call(what, self.sim.now)
        self.calls.append(c)
        try:
            fn()
        except Exception as e:
            c.exc = e
        c.end = self.sim.now
        self.sim.log("call", what=what, exc=repr(c.exc)[:200], tb="".join(__import__("traceback").format_exception(c.exc))[-900:] if c.exc else "")
        self.wake()
        return c

    def _main(self) -> None:
        import threading

        from ansibug._mp_queue import ClientMPQueue, MPProtocol, ServerMPQueue
        from ansibug._socket_helper import SocketCancellationToken

        ch, sim = self.ch, self.sim
        self.token = SocketCancellationToken()
        server = self.server
        s_ctx, c_ctx = self.contexts()
        timeout = 1e6 if self.timed else 0
        kw: dict[str, t.Any] = {}
        if server:
            q = ServerMPQueue(self.addr, proto=self.proto(self.side), ssl_context=s_ctx, cancel_token=self.token)
            if self.via:
                kw["cancel_queue"] = ServerMPQueue("uds://" + os.path.join(self.env.tmp, "other"), proto=MPProtocol)
        else:
            # the peer listens
            self.until(lambda: bool(self.address))
            q = ClientMPQueue(self.target(self.address), proto=self.proto(self.side), ssl_context=c_ctx, cancel_token=self.token)
        self.queue = q
        if server:
            self.address = q.address
        early = self.op in ("accept", "connect", "ack", "handshake_s", "handshake_c")
        threads = [threading.Thread(target=self._canceller, args=(i,), name=f"canceller{i}") for i in range(self.who)]
        for th in threads:
            th.start()
        if early:
            self.ready = True
        self.wake()
        c = self._call("start", lambda: q.start(timeout=timeout, **kw))
        if not early:
            self.ready = True
            self.wake()
        if c.exc is None:
            self.side.started = True
            if self.op == "send":
                for i in range(3):
                    m = self._big(i)
                    c = self._call("send", lambda m=m: q.send(m))
                    if c.exc is not None:
                        break
        for th in threads:
            th.join()
        # whatever comes later is refused
        if self.side.started:
            self._call("send-later", lambda: q.send(self._big(9)))
        elif self.how == "cancel":
            self._call("start-later", lambda: q.start(timeout=timeout))
        for _ in range(2):
            self._do_cancel("stop-again", q.stop)

    def _big(self, i: int) -> t.Any:
        from ansibug import dap

        return dap.OutputEvent(category="x", output="y" * 300_000, data=i)

    def _do_cancel(self, what: str, fn: t.Callable[[], t.Any]) -> None:
        c = Call(what, self.sim.now)
        self.cancels.append(c)
        try:
            fn()
        except Exception as e:
            c.exc = e
        c.end = self.sim.now
        if self.cancel_end is None:
            self.cancel_end = self.sim.now
        self.sim.log("cancelled", what=what, exc=repr(c.exc)[:200])
        self.wake()

    def _canceller(self, i: int) -> None:
        ch, sim = self.ch, self.sim
        self.until(lambda: self.ready)
        # mostly while the operation is about to begin or has just begun
        k = ch.decide("cancel", 6)
        if k == 1:
            sim.sleep([0.001, 0.3, 5.0][ch.decide("cancel", 3)])
        elif k:
            hit = [False]

            def wake() -> None:
                hit[0] = True
                self.wake()

            sim.at_step(sim.steps + ch.decide("cancel", [12, 40, 120, 400][k - 2]), wake)
            self.until(lambda: hit[0], 1.0)
        for j in range(1 + ch.decide("cancel", 2)):
            if self.how == "stop" and i == 0 and j == 0:
                self._do_cancel("stop", self.queue.stop)
            else:
                self._do_cancel("cancel", self.token.cancel)

    # the peer: raw sockets, a client of the simulation
    def _peer(self) -> None:
        import socket

        ch, sim = self.ch, self.sim
        if not self.server:
            if self.kind == "uds":
                s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
                s.bind(self.addr[6:])
                s.listen()
                address = self.addr
            else:
                s = socket.create_server(("", 0), family=socket.AF_INET6, dualstack_ipv6=True)
                address = f"tcp://[::]:{s.getsockname()[1]}"
            if self.op == "connect":
                self.env.net.blackhole.add(s.getsockname()[1])
            self.address = address
            self.wake()
            if self.op in ("ack", "connect"):
                if self.peer_acts >= 0:
                    sim.sleep(self.peer_acts)
                    s.close()
                self.until(lambda: False)
            conn, _ = s.accept()
            if self.op == "handshake_c":
                self._act(conn, b"")
            if self.cfg["tls"]:
                try:
                    conn = tls.server_context().wrap_socket(conn, server_side=True)
                except OSError:
                    return
            try:
                conn.sendall(b"\0")
            except OSError:
                return
            self._act(conn, b"")
            return
        self.until(lambda: bool(self.address))
        if self.op == "accept":
            if self.peer_acts < 0:
                return
            sim.sleep(self.peer_acts)
        try:
            c = self._dial()
        except OSError:
            return
        if self.op == "handshake_s":
            self._act(c, [b"", b"\x16\x03\x01"][ch.decide("peer", 2)])
        try:
            if self.cfg["tls"]:
                c = tls.client_context().wrap_socket(c, server_hostname="localhost")
            c.recv(1)
        except OSError:
            return
        self._act(c, b"")

    def _dial(self) -> t.Any:
        import socket

        if self.kind == "uds":
            s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
            s.connect(self.addr[6:])
            return s
        return socket.create_connection(("localhost", int(self.address.rsplit(":", 1)[1])))

    def _act(self, conn: t.Any, data: bytes) -> None:
        """Stays silent, or does something that races with the cancellation."""
        try:
            if data:
                conn.sendall(data)
            if self.peer_acts >= 0:
                self.sim.sleep(self.peer_acts)
                if self.ch.decide("peer", 2):
                    conn.sendall(b"\xff\xff")
                else:
                    conn.close()
        except OSError:
            pass
        self.until(lambda: False)

    def judge(self) -> None:
        from ansibug._socket_helper import CancelledError

        sim = self.sim
        self.count("c19.cancels", len(self.cancels))
        slack = 5.0 + sim.stalled
        for c in self.cancels:
            if c.exc is not None:
                self.bad("C19", "cancel-raised", f"{c.what} raised {c.exc!r}")
            elif c.end is None:
                self.bad("C19", "cancel-stuck", f"{c.what} never returned")
        when = self.cancel_end
        if when is None:
            self.count("c19.none")  # the peer went away before anything could be cancelled, say
            return
        for c in self.calls:
            if c.end is None:
                self.bad("C19", "stuck", f"{self.op}: {c.what} is still blocked after the cancellation")
                continue
            if c.end > max(when, c.begin) + slack:
                self.bad("C19", "slow", f"{self.op}: {c.what} ended {c.end - max(when, c.begin):.1f} s after the cancellation")
            if c.what.endswith("-later"):
                self.count("c19.later")
                if not isinstance(c.exc, CancelledError):
                    self.bad("C19", "later", f"{self.op}: {c.what} after the cancellation ended with {c.exc!r}")
            elif isinstance(c.exc, CancelledError):
                self.count("c19.released")
            elif c.exc is None:
                self.count("c19.completed")
            elif self.peer_acts >= 0 and isinstance(c.exc, OSError):
                self.count("c19.peer")
            else:
                self.bad("C19", "exception", f"{self.op}: {c.what} ended with {c.exc!r} instead of a cancellation")
        if self.side.started:
            self.count("c19.recv")
            if len(self.side.closed) != 1:
                self.bad("C19", "recv", f"the receiver learned {len(self.side.closed)} times of the end")
            elif self.side.closed[0][0] > when + slack:
                self.bad("C19", "recv-slow", f"the receiver ended {self.side.closed[0][0] - when:.1f} s after the cancellation")
            elif self.side.closed[0][1] is not None and self.peer_acts < 0:
                self.bad("C19", "recv-exception", f"the receiver ended with {self.side.closed[0][1]!r} instead of a cancellation")
        if self.main.alive:
            self.bad("C19", "stuck", "the process never ended")
        self.check_threads("C19")

    def detail(self) -> str:
        out = super().detail()
        for c in [*self.calls, *self.cancels]:
            out += f"{c.what}: {c.begin - self.sim.t0:.3f} -> {None if c.end is None else round(c.end - self.sim.t0, 3)} {c.exc!r}\n"
        return out + f"closed={self.side.closed} started={self.side.started}\n"
