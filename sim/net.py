"""Simulated stream sockets (UDS, TCP), select/poll and pipes.

Follows Linux semantics for what ansibug relies on: shutdown and close while
another thread is blocked, resets with unread data, half close, listener
shutdown, backlog, short reads and partial writes.  selfcheck.py compares the
model with the kernel's own sockets.
"""

from __future__ import annotations

import errno
import io
import os
import select as _select_mod
import selectors
import socket as _socket_mod
import typing as t

from . import kernel
from .kernel import SimProcess, SimThread

real_socket = _socket_mod.socket
real_select = _select_mod.select
AF_UNIX, AF_INET, AF_INET6 = _socket_mod.AF_UNIX, _socket_mod.AF_INET, _socket_mod.AF_INET6
SHUT_RD, SHUT_WR, SHUT_RDWR = _socket_mod.SHUT_RD, _socket_mod.SHUT_WR, _socket_mod.SHUT_RDWR


def err(code: int) -> OSError:
    return OSError(code, os.strerror(code))


class NetPolicy:
    def __init__(self) -> None:
        self.capacity = 200_000
        self.p_short_read = 0.0
        self.p_short_write = 0.0
        self.latency = 0.0  # TCP one way, seconds
        self.jitter = 0.0
        self.connect_latency = 0.0
        self.partition_until = 0.0  # TCP traffic sent before this is delivered afterwards
        self.p_eintr = 0.0


class Net:
    """The simulated network namespace of one run."""

    def __init__(self, sim: kernel.Sim) -> None:
        self.sim = sim
        self.policy = NetPolicy()
        self.uds: dict[str, "KSock"] = {}
        self.tcp: dict[int, "KSock"] = {}
        self.next_port = 40001
        self.dns: dict[str, list[tuple[int, str]]] = {}
        self.all: list["KSock"] = []
        self.blackhole: set[int] = set()  # ports that never answer
        self.down: dict[str, str] = {}  # addresses of hosts that refuse, drop, aren't reached
        self.dualstack = True
        self.bytes = 0
        self.on_connect: list[t.Callable[["KSock", "KSock"], None]] = []
        self.tap: t.Callable[[str, bytes], None] | None = None  # sees what is sent


NET: Net | None = None


def set_net(net: Net | None) -> None:
    global NET
    NET = net


class KSock:
    """The kernel side of a stream socket."""

    def __init__(self, family: int) -> None:
        self.net = t.cast(Net, NET)
        self.family = family
        self.refs = 0
        self.state = "new"  # new listening connecting connected closed
        self.q: list[SimThread] = []  # everybody interested in any change
        self.rbuf = bytearray()
        self.inflight: list[tuple[float, str, bytes]] = []
        self.peer: KSock | None = None
        self.rd_shut = False
        self.wr_shut = False
        self.peer_eof = False
        self.peer_gone = False
        self.fin = False  # the peer's end of the stream was seen (TCP)
        self.so_error = 0
        self.was_reset = False
        self.name: t.Any = (
            "" if family == AF_UNIX else ("::", 0, 0, 0) if family == AF_INET6 else ("0.0.0.0", 0)
        )
        self.peername: t.Any = ""
        self.backlog: list[KSock] = []
        self.backlog_max = 128
        self.users = 0
        self.released = False
        self.tag = ""
        self.sent = 0
        self.received = 0
        self.net.all.append(self)

    # -- wakeups
    def kick(self) -> None:
        self.net.sim.wake_all(self.q)

    def decref(self) -> None:
        self.refs -= 1
        if self.refs <= 0:
            self.maybe_release()

    def force_release(self, proc: SimProcess) -> None:
        # the threads using it died with the process
        self.users = 0

    def maybe_release(self) -> None:
        if self.refs <= 0 and self.users <= 0 and not self.released:
            self.released = True
            self._release()

    def _release(self) -> None:
        st = self.state
        self.state = "closed"
        if st in ("listening", "lshut"):
            for table in (self.net.uds, self.net.tcp):
                for k in [k for k, v in table.items() if v is self]:
                    del table[k]  # type: ignore[arg-type]
            for c in self.backlog:
                c._abort_peer()
                c.state = "closed"
            self.backlog.clear()
        elif self.peer is not None:
            unread = bool(self.rbuf) or any(k == "data" for _, k, _ in self.inflight)
            if self.family == AF_UNIX:
                if unread:
                    self.peer.so_error = errno.ECONNRESET
                self.peer.peer_gone = True
                self.peer.peer_eof = True
                self.peer.kick()
            else:
                self.peer.deliver("rst" if unread else "fin", b"")
                self.peer.peer_gone = True
                self.peer.kick()
        self.kick()

    def _abort_peer(self) -> None:
        if self.peer is not None:
            p = self.peer
            if self.family == AF_UNIX:
                p.so_error = errno.ECONNRESET
                p.peer_gone = p.peer_eof = True
                p.kick()
            else:
                p.deliver("rst", b"")

    # -- delivery into this socket
    def deliver(self, kind: str, data: bytes) -> None:
        net = self.net
        delay = 0.0
        if self.family != AF_UNIX:
            delay = net.policy.latency
            if net.policy.jitter:
                delay += net.policy.jitter * net.sim.ch.decide("net.jitter", 8) / 7.0
            if net.policy.partition_until > net.sim.now:
                delay += net.policy.partition_until - net.sim.now
        at = net.sim.now + delay
        if self.inflight and self.inflight[-1][0] > at:
            at = self.inflight[-1][0]
        if delay <= 0 and not self.inflight:
            self._arrive(kind, data)
        else:
            self.inflight.append((at, kind, data))
            if self.q:
                self.kick()  # let waiters re-arm with the new arrival time

    def _arrive(self, kind: str, data: bytes) -> None:
        if kind == "data":
            if self.released or self.was_reset:
                return
            if self.family != AF_UNIX and self.rd_shut and self.wr_shut:
                # nobody is left to read it
                self._arrive("rst", b"")
                if self.peer is not None:
                    self.peer.deliver("rst", b"")
                return
            self.rbuf += data
        elif kind == "fin":
            if self.was_reset:
                return
            self.peer_eof = self.fin = True
        elif kind == "rst":
            if not self.was_reset:
                self.was_reset = True
                self.so_error = errno.EPIPE if self.peer_eof else errno.ECONNRESET
                self.peer_eof = True
                self.peer_gone = True
        self.kick()

    def reset(self) -> None:
        """The connection breaks: both ends find out, nothing in flight survives."""
        for k in (self, self.peer):
            if k is not None and not k.was_reset:
                k.inflight.clear()
                k._arrive("rst", b"")

    def settle(self) -> float | None:
        """Moves due segments in; returns when the next one is due."""
        now = self.net.sim.now
        while self.inflight and self.inflight[0][0] <= now:
            _, k, d = self.inflight.pop(0)
            self._arrive(k, d)
        return self.inflight[0][0] if self.inflight else None

    # -- readiness
    def readable(self) -> bool:
        self.settle()
        if self.state == "listening":
            return bool(self.backlog)
        if self.state == "lshut":
            return True
        if self.state in ("new", "connecting"):
            return self.state == "new" and (self.family != AF_UNIX or self.rd_shut)
        return bool(self.rbuf) or self.peer_eof or self.rd_shut or bool(self.so_error)

    def space(self) -> int:
        p = self.peer
        if p is None:
            return 1
        used = len(p.rbuf) + sum(len(d) for _, k, d in p.inflight if k == "data")
        return self.net.policy.capacity - used

    def writable(self) -> bool:
        self.settle()
        if self.state == "connecting":
            return False
        if self.state == "new":
            return True
        if self.state in ("listening",):
            return False
        return (
            self.state == "lshut"
            or self.wr_shut
            or self.peer_gone
            or bool(self.so_error)
            or self.state == "closed"
            or self.space() > 0
        )

    def pollin(self) -> bool:
        """What poll says, where only select takes an error for readable."""
        self.settle()
        if self.state == "lshut":
            return self.family == AF_UNIX or self.rd_shut
        if self.state == "connected":
            return bool(self.rbuf) or self.peer_eof or self.rd_shut
        return self.readable()

    def pollout(self) -> bool:
        return self.writable() and not (self.state == "lshut" and self.family == AF_UNIX)

    def hup(self) -> bool:
        self.settle()
        if self.state == "new":
            return self.family != AF_UNIX
        if self.state == "lshut" or self.was_reset:
            return True
        if self.state != "connected":
            return False
        if self.family == AF_UNIX:
            p = self.peer
            return (self.rd_shut or self.peer_eof) and (self.wr_shut or self.peer_gone or p is not None and p.rd_shut)
        return (self.rd_shut or self.fin) and self.wr_shut

    def error(self) -> bool:
        self.settle()
        return bool(self.so_error)

    def wait(self, why: str, timeout: float | None) -> bool:
        nxt = self.settle()
        sim = self.net.sim
        tm = timeout
        if nxt is not None:
            d = max(nxt - sim.now, 1e-9)
            tm = d if tm is None else min(tm, d)
        self.users += 1
        try:
            return sim.wait_on(self.q, why, tm)
        finally:
            self.users -= 1
            self.maybe_release()


class SimSocket:
    """Python's socket.socket over KSock."""

    def __init__(
        self, family: int = -1, type: int = -1, proto: int = -1, fileno: int | None = None, _k: KSock | None = None
    ) -> None:
        if NET is None or not kernel.in_sim():
            raise RuntimeError("SimSocket outside a simulation")
        sim = NET.sim
        th = sim.current
        assert th is not None
        self._proc = th.proc
        self._timeout: float | None = None
        self._io_refs = 0
        self._closed = False
        if fileno is not None:
            k = th.proc.fds.get(fileno)
            if not isinstance(k, KSock):
                raise err(errno.EBADF)
            self._k = k
            self._fd = fileno
        else:
            if _k is None and sim.sysfail is not None:
                sim.may_fail("socket")
            if family == -1:
                family = AF_INET
            self._k = _k or KSock(int(family))
            self._fd = th.proc.add_fd(self._k)
        self._type = _socket_mod.SOCK_STREAM

    # -- identity
    @property
    def family(self) -> t.Any:
        return _socket_mod.AddressFamily(self._k.family)

    @property
    def type(self) -> t.Any:
        return _socket_mod.SOCK_STREAM

    @property
    def proto(self) -> int:
        return 0

    def fileno(self) -> int:
        return self._fd

    def __enter__(self) -> "SimSocket":
        return self

    def __exit__(self, *a: t.Any) -> None:
        if not self._closed:
            self.close()

    def __repr__(self) -> str:
        return f"<SimSocket fd={self._fd} {self._k.tag}>"

    def _kk(self) -> KSock:
        if self._fd < 0:
            raise err(errno.EBADF)
        k = self._proc.fds.get(self._fd)
        if k is None:
            raise err(errno.EBADF)
        return t.cast(KSock, k)

    @property
    def _sim(self) -> kernel.Sim:
        return self._k.net.sim

    # -- lifecycle
    def detach(self) -> int:
        fd, self._fd = self._fd, -1
        self._closed = True
        return fd

    def close(self) -> None:
        self._closed = True
        if self._io_refs <= 0:
            self._real_close()

    def _real_close(self) -> None:
        self._sim.point("close")
        fd, self._fd = self._fd, -1
        if fd >= 0:
            self._proc.close_fd(fd)

    def _decref_socketios(self) -> None:
        if self._io_refs > 0:
            self._io_refs -= 1
        if self._closed:
            self.close()

    def makefile(self, mode: str = "r", buffering: int | None = None, **kw: t.Any) -> t.Any:
        raise NotImplementedError("makefile")

    def dup(self) -> "SimSocket":
        k = self._kk()
        s = SimSocket.__new__(type(self))
        s._proc = self._proc
        s._timeout = self._timeout
        s._io_refs = 0
        s._closed = False
        s._k = k
        s._fd = self._proc.add_fd(k)
        return s

    # -- options
    def setblocking(self, flag: bool) -> None:
        if self._fd < 0:
            raise err(errno.EBADF)
        self._sim.point("setblocking")
        self._timeout = None if flag else 0.0

    def settimeout(self, value: float | None) -> None:
        if value is not None and value < 0:
            raise ValueError("Timeout value out of range")
        if self._fd < 0:
            raise err(errno.EBADF)
        self._timeout = value

    def gettimeout(self) -> float | None:
        return self._timeout

    def getblocking(self) -> bool:
        return self._timeout != 0.0

    def set_inheritable(self, v: bool) -> None:
        pass

    def get_inheritable(self) -> bool:
        return False

    def setsockopt(self, *a: t.Any) -> None:
        self._kk()

    def getsockopt(self, level: int, opt: int, *a: t.Any) -> t.Any:
        k = self._kk()
        if level == _socket_mod.SOL_SOCKET and opt == _socket_mod.SO_ERROR:
            k.settle()
            e, k.so_error = k.so_error, 0
            return e
        if level == _socket_mod.SOL_SOCKET and opt == _socket_mod.SO_TYPE:
            return int(_socket_mod.SOCK_STREAM)
        if level == _socket_mod.SOL_SOCKET and opt == _socket_mod.SO_ACCEPTCONN:
            return 1 if k.state == "listening" else 0
        return 0

    def getsockname(self) -> t.Any:
        return self._kk().name

    def getpeername(self) -> t.Any:
        k = self._kk()
        k.settle()
        if k.state != "connected" or k.was_reset or k.fin and k.wr_shut:
            raise err(errno.ENOTCONN)
        return k.peername

    # -- server side
    def bind(self, addr: t.Any) -> None:
        self._sim.point("bind")
        k = self._kk()
        net = k.net
        if k.family == AF_UNIX:
            path = os.fsdecode(addr)
            if len(os.fsencode(path)) > 107:
                raise OSError("AF_UNIX path too long")
            if os.path.lexists(path):
                raise err(errno.EADDRINUSE)
            # a placeholder file: directory listings and unlink behave as usual
            try:
                fd = os.open(path, os.O_CREAT | os.O_EXCL | os.O_WRONLY, 0o600)
            except FileExistsError:
                raise err(errno.EADDRINUSE) from None
            os.close(fd)
            k.name = path
            st = os.stat(path)
            k.inode = (st.st_dev, st.st_ino)  # type: ignore[attr-defined]
            net.uds[path] = k
        else:
            host, port = addr[0], addr[1]
            if k.family == AF_INET6 and host.count(".") == 3 and host.replace(".", "").isdigit():
                raise OSError(-9, "Address family for hostname not supported")
            if host == "localhost":
                host = "::1" if k.family == AF_INET6 else "127.0.0.1"
            if port == 0:
                port = net.next_port
                net.next_port += 1
            if port in net.tcp:
                raise err(errno.EADDRINUSE)
            if k.family == AF_INET6:
                k.name = (host or "::", port, 0, 0)
            else:
                k.name = (host or "0.0.0.0", port)
            net.tcp[port] = k
            k.bound = port  # type: ignore[attr-defined]
        k.tag = str(k.name)

    def listen(self, backlog: int = 128) -> None:
        self._sim.point("listen")
        k = self._kk()
        if k.family == AF_UNIX and not k.name:
            raise err(errno.EINVAL)
        k.state = "listening"
        k.backlog_max = max(backlog, 0)
        k.kick()

    def accept(self) -> tuple["SimSocket", t.Any]:
        sim = self._sim
        sim.point("accept")
        end = None if self._timeout is None else sim.now + self._timeout
        while True:
            k = self._kk()
            if k.state not in ("listening", "lshut"):
                raise err(errno.EINVAL)
            if k.backlog:
                c = k.backlog.pop(0)
                k.kick()
                s = SimSocket(k.family, _k=c)
                addr = c.peername if k.family != AF_UNIX else ""
                sim.log("net.accept", sock=k.tag)
                return s, addr
            if k.state == "lshut" and (k.family != AF_UNIX or self._timeout is None):
                raise err(errno.EINVAL)
            if self._timeout == 0.0:
                raise BlockingIOError(errno.EAGAIN, os.strerror(errno.EAGAIN))
            left = None if end is None else end - sim.now
            if left is not None and left <= 0:
                raise TimeoutError("timed out")
            k.wait("accept", left)

    # -- client side
    def _lookup(self, k: KSock, addr: t.Any) -> KSock | None:
        net = k.net
        if k.family == AF_UNIX:
            path = os.fsdecode(addr)
            if not os.path.lexists(path):
                raise err(errno.ENOENT)
            lk = net.uds.get(path)
            if lk is not None:
                st = os.stat(path)
                if (st.st_dev, st.st_ino) != lk.inode:  # type: ignore[attr-defined]
                    lk = None
        else:
            port = addr[1]
            how = net.down.get(addr[0])
            if how == "refuse":
                raise err(errno.ECONNREFUSED)
            if how == "unreach":
                raise err(errno.ENETUNREACH)
            if port in net.blackhole or how == "drop":
                return None
            lk = net.tcp.get(port)
        if lk is None or lk.state != "listening":
            raise err(errno.ECONNREFUSED)
        return lk

    def _establish(self, k: KSock, lk: KSock) -> None:
        net = k.net
        srv = KSock(k.family)
        srv.state = k.state = "connected"
        srv.peer, k.peer = k, srv
        srv.name = lk.name
        srv.tag = f"srv<{lk.tag}>"
        k.tag = f"cli<{lk.tag}>"
        if k.family != AF_UNIX:
            port = net.next_port
            net.next_port += 1
            k.name = ("127.0.0.1", port) if k.family == AF_INET else ("::1", port, 0, 0)
            srv.peername = ("::ffff:127.0.0.1", port, 0, 0) if lk.family == AF_INET6 else ("127.0.0.1", port)
            srv.family = lk.family
        k.peername = lk.name
        lk.backlog.append(srv)
        for fn in net.on_connect:
            fn(k, srv)
        lk.kick()
        k.kick()

    def connect(self, addr: t.Any) -> None:
        sim = self._sim
        sim.point("connect")
        k = self._kk()
        if k.state == "connected":
            raise err(errno.EISCONN)
        if k.state == "connecting":
            raise err(errno.EALREADY)
        end = None if self._timeout is None else sim.now + self._timeout
        if k.family == AF_UNIX:
            while True:
                lk = self._lookup(k, addr)
                assert lk is not None
                if len(lk.backlog) <= lk.backlog_max:
                    break
                if self._timeout == 0.0:
                    raise BlockingIOError(errno.EAGAIN, os.strerror(errno.EAGAIN))
                left = None if end is None else end - sim.now
                if left is not None and left <= 0:
                    raise TimeoutError("timed out")
                lk.wait("connect", left)
                self._kk()
            self._establish(k, lk)
            sim.log("net.connect", sock=k.tag)
            return

        # TCP: completes (or fails) after a delay
        lat = k.net.policy.connect_latency
        try:
            lk = self._lookup(k, addr)
        except OSError as e:
            lk = None
            fail: OSError | None = e
        else:
            fail = None
        if self._timeout == 0.0 or lat > 0 or lk is None and fail is None:
            k.state = "connecting"
            self._async_connect(k, addr, lat)
            if self._timeout == 0.0:
                raise BlockingIOError(errno.EINPROGRESS, os.strerror(errno.EINPROGRESS))
            while k.state == "connecting":
                left = None if end is None else end - sim.now
                if left is not None and left <= 0:
                    raise TimeoutError("timed out")
                k.wait("connect", left)
            if k.so_error:
                e2, k.so_error = k.so_error, 0
                k.state = "new"
                raise err(e2)
            return
        if fail is not None:
            raise fail
        assert lk is not None
        self._establish(k, lk)
        sim.log("net.connect", sock=k.tag)

    def _async_connect(self, k: KSock, addr: t.Any, lat: float) -> None:
        sim = self._sim

        def finish() -> None:
            if lat > 0:
                sim.sleep(lat)
            tries = 0
            while k.state == "connecting" and not k.released:
                try:
                    lk = self._lookup(k, addr)
                except OSError as e:
                    k.so_error = e.errno or errno.ECONNREFUSED
                    k.state = "new"
                    k.kick()
                    return
                if lk is not None and len(lk.backlog) <= lk.backlog_max:
                    self._establish(k, lk)
                    sim.log("net.connect", sock=k.tag)
                    return
                # SYN dropped: retransmit with backoff
                tries += 1
                if tries > 6:
                    k.so_error = errno.ETIMEDOUT
                    k.state = "new"
                    k.kick()
                    return
                sim.sleep(float(1 << (tries - 1)))

        th = sim.new_thread("syn", KERNEL_PROC(sim), finish, daemon=True)
        th.is_client = True
        sim.start_thread(th)

    def connect_ex(self, addr: t.Any) -> int:
        try:
            self.connect(addr)
            return 0
        except OSError as e:
            return e.errno or -1

    # -- data
    def _recv_ready(self, k: KSock) -> None:
        sim = self._sim
        end = None if self._timeout is None else sim.now + self._timeout
        while True:
            if k.state == "new":
                if k.family == AF_UNIX:
                    raise err(errno.EINVAL)
                raise err(errno.ENOTCONN)
            if k.state in ("listening", "lshut"):
                raise err(errno.EINVAL if k.family == AF_UNIX else errno.ENOTCONN)
            if k.readable():
                return
            if self._timeout == 0.0:
                raise BlockingIOError(errno.EAGAIN, os.strerror(errno.EAGAIN))
            left = None if end is None else end - sim.now
            if left is not None and left <= 0:
                raise TimeoutError("timed out")
            k.wait("recv", left)

    def recv_into(self, buffer: t.Any, nbytes: int = 0, flags: int = 0) -> int:
        sim = self._sim
        sim.point("recv")
        k = self._kk()
        mv = memoryview(buffer).cast("B")
        n = nbytes or len(mv)
        if n > len(mv):
            raise ValueError("buffer too small for requested bytes")
        if n == 0:
            return 0
        self._recv_ready(k)
        if k.rbuf:
            m = min(n, len(k.rbuf))
            if m > 1 and k.net.policy.p_short_read >= 0:
                p = k.net.policy.p_short_read
                short = sim.ch.decide(
                    "net.short_read", m, lambda r: r.randrange(1, m) if r.random() < p else 0
                )
                if short:
                    m = short
                    sim.faults["short_read"] = sim.faults.get("short_read", 0) + 1
            mv[:m] = k.rbuf[:m]
            if not flags & _socket_mod.MSG_PEEK:
                del k.rbuf[:m]
                k.received += m
                if k.peer is not None:
                    k.peer.kick()
            return m
        if k.fin:
            return 0
        if k.so_error:
            e, k.so_error = k.so_error, 0
            raise err(e)
        return 0

    def recv(self, n: int, flags: int = 0) -> bytes:
        b = bytearray(n)
        m = self.recv_into(b, n, flags)
        return bytes(b[:m])

    read = recv

    def _send_some(self, data: memoryview, block: bool, end: float | None) -> int:
        sim = self._sim
        k = self._kk()
        while True:
            k.settle()
            if k.state != "connected":
                raise err(errno.ENOTCONN if k.family == AF_UNIX else errno.EPIPE)
            if k.family == AF_UNIX and (k.wr_shut or k.peer_gone):
                raise err(errno.EPIPE)
            if k.so_error:
                e, k.so_error = k.so_error, 0
                raise err(e)
            if k.was_reset or k.wr_shut:
                raise err(errno.EPIPE)
            peer = k.peer
            assert peer is not None
            if k.family == AF_UNIX and (k.peer_gone or peer.rd_shut):
                raise err(errno.EPIPE)
            if k.peer_gone:
                # TCP: the segment goes out and is answered by a reset
                k.deliver("rst", b"")
                return len(data)
            room = k.space()
            if room > 0:
                m = min(room, len(data))
                if m > 1:
                    p = k.net.policy.p_short_write
                    short = sim.ch.decide(
                        "net.short_write", m, lambda r: r.randrange(1, m) if r.random() < p else 0
                    )
                    if short:
                        m = short
                        sim.faults["short_write"] = sim.faults.get("short_write", 0) + 1
                if k.net.tap is not None and sim.current is not None:
                    k.net.tap(sim.current.proc.name, bytes(data[:m]))
                peer.deliver("data", bytes(data[:m]))
                k.sent += m
                k.net.bytes += m
                return m
            if not block:
                raise BlockingIOError(errno.EAGAIN, os.strerror(errno.EAGAIN))
            left = None if end is None else end - sim.now
            if left is not None and left <= 0:
                raise TimeoutError("timed out")
            k.wait("send", left)

    def send(self, data: t.Any, flags: int = 0) -> int:
        sim = self._sim
        sim.point("send")
        mv = memoryview(data).cast("B")
        if not len(mv):
            self._kk()
            return 0
        end = None if self._timeout is None else sim.now + self._timeout
        return self._send_some(mv, self._timeout != 0.0, end)

    def sendall(self, data: t.Any, flags: int = 0) -> None:
        sim = self._sim
        sim.point("send")
        mv = memoryview(data).cast("B")
        end = None if self._timeout is None else sim.now + self._timeout
        k = self._kk()
        k.users += 1
        try:
            while len(mv):
                m = self._send_some(mv, self._timeout != 0.0, end)
                mv = mv[m:]
                if len(mv):
                    sim.point("send.partial")
        finally:
            k.users -= 1
            k.maybe_release()

    def shutdown(self, how: int) -> None:
        sim = self._sim
        sim.point("shutdown")
        k = self._kk()
        if k.state == "listening":
            if k.family == AF_UNIX:
                if how in (SHUT_RD, SHUT_RDWR):
                    k.state = "lshut"
            else:
                if how == SHUT_WR:
                    return
                k.state = "lshut"
                k.net.tcp.pop(k.name[1], None)
                for c in k.backlog:
                    c._abort_peer()
                k.backlog.clear()
            k.kick()
            return
        k.settle()
        if k.state == "lshut":
            if k.family != AF_UNIX:
                k.rd_shut = k.rd_shut or how != SHUT_WR
                raise err(errno.ENOTCONN)
            return
        if k.family != AF_UNIX:
            if k.state == "connecting":
                # SYN_SENT: shutdown aborts the attempt
                k.state = "new"
                k.so_error = 0
                k.rd_shut = k.wr_shut = True
                k.kick()
                return
            if k.state != "connected" or k.was_reset:
                raise err(errno.ENOTCONN)
            if k.wr_shut and k.peer_eof:
                raise err(errno.ENOTCONN)
        if how in (SHUT_RD, SHUT_RDWR):
            k.rd_shut = True
        if how in (SHUT_WR, SHUT_RDWR):
            if not k.wr_shut:
                k.wr_shut = True
                if k.peer is not None and not k.peer_gone:
                    if k.family == AF_UNIX:
                        k.peer.peer_eof = True
                        k.peer.kick()
                    else:
                        k.peer.deliver("fin", b"")
        if k.peer is not None:
            k.peer.kick()
        k.kick()


_kprocs: dict[int, SimProcess] = {}


def KERNEL_PROC(sim: kernel.Sim) -> SimProcess:
    p = getattr(sim, "_kernel_proc", None)
    if p is None:
        p = SimProcess(sim, "kernel", 2)
        sim._kernel_proc = p  # type: ignore[attr-defined]
    return p


# ----------------------------------------------------------------- module level


def sim_create_server(
    address: t.Any, *, family: int = AF_INET, backlog: int | None = None, reuse_port: bool = False,
    dualstack_ipv6: bool = False,
) -> SimSocket:
    if dualstack_ipv6 and family != AF_INET6:
        raise ValueError("dualstack_ipv6 requires AF_INET6")
    s = SimSocket(family, _socket_mod.SOCK_STREAM)
    try:
        try:
            s.bind(address)
        except OSError as e:
            raise OSError(e.errno, f"{e.strerror} (while attempting to bind on address {address!r})") from None
        if backlog is None:
            s.listen()
        else:
            s.listen(backlog)
        return s
    except OSError:
        s.close()
        raise


def sim_getaddrinfo(host: t.Any, port: t.Any, family: int = 0, type: int = 0, proto: int = 0, flags: int = 0) -> t.Any:
    net = t.cast(Net, NET)
    net.sim.point("getaddrinfo")
    if host in net.dns:
        ent = net.dns[host]
        if not ent:
            raise _socket_mod.gaierror(-2, "Name or service not known")
    elif host and ":" in host:
        ent = [(AF_INET6, host)]
    elif host in ("localhost", None, ""):
        ent = [(AF_INET6, "::1"), (AF_INET, "127.0.0.1")]
    else:
        ent = [(AF_INET, host)]
    res = []
    for fam, ip in ent:
        if family and fam != family:
            continue
        a = (ip, port, 0, 0) if fam == AF_INET6 else (ip, port)
        res.append((_socket_mod.AddressFamily(fam), _socket_mod.SOCK_STREAM, 6, "", a))
    return res


def sim_create_connection(address: t.Any, timeout: t.Any = ..., source_address: t.Any = None, **kw: t.Any) -> SimSocket:
    host, port = address
    last: OSError | None = None
    for fam, typ, proto, _, sa in sim_getaddrinfo(host, port, 0, _socket_mod.SOCK_STREAM):
        s = SimSocket(fam, typ, proto)
        try:
            if timeout is not ... and timeout is not None:
                s.settimeout(timeout)
            s.connect(sa)
            return s
        except OSError as e:
            last = e
            s.close()
    raise last or OSError("getaddrinfo returns an empty list")


def sim_socketpair(family: int = AF_UNIX, type: int = 1, proto: int = 0) -> tuple[SimSocket, SimSocket]:
    a, b = SimSocket(AF_UNIX), SimSocket(AF_UNIX)
    a._k.state = b._k.state = "connected"
    a._k.peer, b._k.peer = b._k, a._k
    return a, b


def _obj(proc: SimProcess, f: t.Any) -> t.Any:
    fd = f if isinstance(f, int) else f.fileno()
    if fd < 0:
        raise ValueError(f"file descriptor cannot be a negative integer ({fd})")
    o = proc.fds.get(fd)
    if o is None:
        raise err(errno.EBADF)
    return o


def sim_select(r: t.Any, w: t.Any, x: t.Any, timeout: float | None = None) -> t.Any:
    if not kernel.in_sim():
        return real_select(r, w, x, timeout)
    net = t.cast(Net, NET)
    sim = net.sim
    th = sim.current
    assert th is not None
    sim.point("select")
    if timeout is not None and timeout < 0:
        raise ValueError("timeout must be non-negative")
    rs = [(f, _obj(th.proc, f)) for f in r]
    ws = [(f, _obj(th.proc, f)) for f in w]
    xs = [(f, _obj(th.proc, f)) for f in x]
    del xs
    end = None if timeout is None else sim.now + timeout
    objs = {id(o): o for _, o in rs + ws}
    for o in objs.values():
        o.users += 1
    try:
        while True:
            rr = [f for f, o in rs if o.readable() or o.hup()]
            ww = [f for f, o in ws if o.writable()]
            if rr or ww:
                return rr, ww, []
            left = None if end is None else end - sim.now
            if left is not None and left <= 0:
                return [], [], []
            nxt = [n for n in (o.settle() for o in objs.values()) if n is not None]
            if nxt:
                d = max(min(nxt) - sim.now, 1e-9)
                left = d if left is None else min(left, d)
            sim.wait_many([o.q for o in objs.values()], "select", left)
    finally:
        for o in objs.values():
            o.users -= 1
            o.maybe_release()


class SimPoll:
    def __init__(self) -> None:
        self._reg: dict[int, int] = {}

    def register(self, f: t.Any, mask: int = _select_mod.POLLIN | _select_mod.POLLPRI | _select_mod.POLLOUT) -> None:
        self._reg[f if isinstance(f, int) else f.fileno()] = mask

    modify = register

    def unregister(self, f: t.Any) -> None:
        del self._reg[f if isinstance(f, int) else f.fileno()]

    def poll(self, timeout: float | None = None) -> list[tuple[int, int]]:
        net = t.cast(Net, NET)
        sim = net.sim
        th = sim.current
        assert th is not None
        sim.point("poll")
        end = None if timeout is None or timeout < 0 else sim.now + timeout / 1000.0
        objs = []
        for fd, mask in self._reg.items():
            o = th.proc.fds.get(fd)
            if o is not None:
                objs.append((fd, mask, o))
        for _, _, o in objs:
            o.users += 1
        try:
            while True:
                out = []
                for fd, mask in self._reg.items():
                    if fd not in th.proc.fds and not any(f == fd for f, _, _ in objs):
                        out.append((fd, _select_mod.POLLNVAL))
                for fd, mask, o in objs:
                    ev = 0
                    if mask & _select_mod.POLLIN and (o.pollin() if isinstance(o, KSock) else o.readable()):
                        ev |= _select_mod.POLLIN
                    if mask & _select_mod.POLLOUT and (o.pollout() if isinstance(o, KSock) else o.writable()):
                        ev |= _select_mod.POLLOUT
                    if o.hup():
                        ev |= _select_mod.POLLHUP
                    if isinstance(o, KSock) and o.error():
                        ev |= _select_mod.POLLERR
                    if ev:
                        out.append((fd, ev))
                if out:
                    return out
                left = None if end is None else end - sim.now
                if left is not None and left <= 0:
                    return []
                nxt = [n for n in (o.settle() for _, _, o in objs) if n is not None]
                if nxt:
                    d = max(min(nxt) - sim.now, 1e-9)
                    left = d if left is None else min(left, d)
                sim.wait_many([o.q for _, _, o in objs], "poll", left)
        finally:
            for _, _, o in objs:
                o.users -= 1
                o.maybe_release()


# ------------------------------------------------------------------------ pipes


class Pipe:
    """A kernel pipe between a simulated process and the client harness."""

    def __init__(self, sim: kernel.Sim, capacity: int = 65536) -> None:
        self.sim = sim
        self.cap = capacity
        self.buf = bytearray()
        self.q: list[SimThread] = []
        self.reader_open = True
        self.writer_open = True
        self.total = 0
        self.p_short = 0.0
        self.refs = 0
        self.users = 0

    def readable(self) -> bool:
        return bool(self.buf) or not self.writer_open

    def writable(self) -> bool:
        return len(self.buf) < self.cap or not self.reader_open

    def settle(self) -> None:
        return None

    def hup(self) -> bool:
        return not self.writer_open

    def maybe_release(self) -> None:
        pass

    def decref(self) -> None:
        self.refs -= 1

    def force_release(self, proc: SimProcess) -> None:
        pass

    def kick(self) -> None:
        self.sim.wake_all(self.q)

    def read(self, n: int) -> bytes:
        self.sim.point("pipe.read")
        while not self.buf and self.writer_open:
            self.sim.wait_on(self.q, "pipe.read")
        m = min(n, len(self.buf)) if n >= 0 else len(self.buf)
        if m > 1:
            p = self.p_short
            s = self.sim.ch.decide("pipe.short", m, lambda r: r.randrange(1, m) if r.random() < p else 0)
            if s:
                m = s
                self.sim.faults["short_stdin_read"] = self.sim.faults.get("short_stdin_read", 0) + 1
        d = bytes(self.buf[:m])
        del self.buf[:m]
        self.kick()
        return d

    def write(self, data: bytes) -> int:
        self.sim.point("pipe.write")
        mv = memoryview(data)
        while len(mv):
            if not self.reader_open:
                raise BrokenPipeError(errno.EPIPE, os.strerror(errno.EPIPE))
            room = self.cap - len(self.buf)
            if room <= 0:
                self.sim.wait_on(self.q, "pipe.write")
                continue
            m = min(room, len(mv))
            self.buf += mv[:m]
            self.total += m
            mv = mv[m:]
            self.kick()
        return len(data)

    def close_writer(self) -> None:
        self.writer_open = False
        self.kick()

    def close_reader(self) -> None:
        self.reader_open = False
        self.kick()


class StdinRaw(io.RawIOBase):
    def __init__(self, pipe: Pipe) -> None:
        self.pipe = pipe

    def readable(self) -> bool:
        return True

    def read(self, n: int = -1) -> bytes:  # type: ignore[override]
        if n is None or n < 0:
            out = b""
            while c := self.pipe.read(65536):
                out += c
            return out
        return self.pipe.read(n)

    def readinto(self, b: t.Any) -> int:
        d = self.pipe.read(len(b))
        b[: len(d)] = d
        return len(d)

    def readall(self) -> bytes:
        return self.read(-1)

    def fileno(self) -> int:
        return 0


class StdinBuffer:
    """sys.stdin.buffer"""

    def __init__(self, pipe: Pipe) -> None:
        self.raw = StdinRaw(pipe)
        self._buf = b""

    def read(self, n: int = -1) -> bytes:
        if n < 0:
            d, self._buf = self._buf + self.raw.readall(), b""
            return d
        while len(self._buf) < n:
            c = self.raw.read(65536)
            if not c:
                break
            self._buf += c
        d, self._buf = self._buf[:n], self._buf[n:]
        return d

    def read1(self, n: int = -1) -> bytes:
        if not self._buf:
            self._buf = self.raw.read(65536)
        if n < 0:
            n = len(self._buf)
        d, self._buf = self._buf[:n], self._buf[n:]
        return d

    def readinto(self, b: t.Any) -> int:
        d = self.read(len(b))
        b[: len(d)] = d
        return len(d)

    def readline(self, limit: int = -1) -> bytes:
        out = b""
        while not out.endswith(b"\n"):
            c = self.read(1)
            if not c:
                break
            out += c
        return out

    def peek(self, n: int = 0) -> bytes:
        if not self._buf:
            self._buf = self.raw.read(65536)
        return self._buf

    def fileno(self) -> int:
        return 0


class StdoutBuffer:
    """sys.stdout.buffer: BufferedWriter semantics (8 KiB, per call lock)."""

    SIZE = 8192

    def __init__(self, pipe: Pipe) -> None:
        from .sync import SimLock

        self.pipe = pipe
        self._lock = SimLock()
        self._buf = bytearray()
        self.raw = self

    def write(self, data: t.Any) -> int:
        data = bytes(data)
        with self._lock:
            if len(self._buf) + len(data) > self.SIZE:
                self._flush()
                if len(data) > self.SIZE:
                    self.pipe.write(data)
                    return len(data)
            self._buf += data
        return len(data)

    def _flush(self) -> None:
        if self._buf:
            d = bytes(self._buf)
            self.pipe.write(d)
            del self._buf[: len(d)]

    def flush(self) -> None:
        with self._lock:
            self._flush()

    def fileno(self) -> int:
        return 1


class StdProxy:
    """What sys.stdin / sys.stdout / sys.stderr are during a run: per process."""

    def __init__(self, which: str, real: t.Any) -> None:
        self.__dict__["_which"] = which
        self.__dict__["_real"] = real

    def _target(self) -> t.Any:
        th = kernel.cur()
        if th is None or not kernel.in_sim():
            return self._real
        if self._which == "stdin":
            return th.proc.stdin or _NullStd()
        if self._which == "stdout":
            return th.proc.stdout or th.proc.stdout_text
        return th.proc.stderr_text

    def __getattr__(self, name: str) -> t.Any:
        return getattr(self._target(), name)


class _NullStd:
    encoding = "utf-8"
    errors = "strict"
    closed = False

    def isatty(self) -> bool:
        return False

    def fileno(self) -> int:
        raise io.UnsupportedOperation("fileno")

    def read(self, *a: t.Any) -> str:
        return ""

    readline = read


class StdinText:
    encoding = "utf-8"
    errors = "strict"
    closed = False

    def __init__(self, pipe: Pipe) -> None:
        self.pipe = pipe
        self.buffer = StdinBuffer(pipe)

    def isatty(self) -> bool:
        return False

    def fileno(self) -> int:
        return 0

    def proc_closed(self) -> None:
        self.pipe.close_reader()


class StdoutText:
    encoding = "utf-8"
    errors = "strict"
    closed = False

    def __init__(self, pipe: Pipe) -> None:
        self.pipe = pipe
        self.buffer = StdoutBuffer(pipe)

    def write(self, s: str) -> int:
        self.buffer.write(s.encode())
        return len(s)

    def flush(self) -> None:
        self.buffer.flush()

    def isatty(self) -> bool:
        return False

    def fileno(self) -> int:
        return 1

    def proc_closed(self) -> None:
        self.pipe.close_writer()


_installed = False
REAL_POLL = _select_mod.poll


def install() -> None:
    global _installed
    if _installed:
        return
    _installed = True
    _socket_mod.socket = SimSocket  # type: ignore[misc,assignment]
    _socket_mod.SocketType = SimSocket  # type: ignore[misc,assignment]
    _socket_mod.create_server = sim_create_server  # type: ignore[assignment]
    _socket_mod.create_connection = sim_create_connection  # type: ignore[assignment]
    _socket_mod.getaddrinfo = sim_getaddrinfo  # type: ignore[assignment]
    _socket_mod.socketpair = sim_socketpair  # type: ignore[assignment]
    _socket_mod.has_dualstack_ipv6 = lambda: NET.dualstack if NET else True  # type: ignore[assignment]
    _select_mod.select = sim_select  # type: ignore[assignment]
    _select_mod.poll = SimPoll  # type: ignore[assignment]
    if hasattr(_select_mod, "epoll"):
        del _select_mod.epoll
    selectors.DefaultSelector = selectors.PollSelector  # type: ignore[misc]
    selectors._PollLikeSelector  # noqa: B018
    selectors.PollSelector._selector_cls = SimPoll  # type: ignore[attr-defined]
