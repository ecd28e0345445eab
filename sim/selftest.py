"""`check selftest`: the simulated kernel objects against the real ones, and determinism.

The scenario `model` does the same random operations on a pair of simulated and
on a pair of real sockets (or a listener and those who connect to it) and
compares what each of them returned.
"""

from __future__ import annotations

import _socket
import errno
import os
import select
import shutil
import socket
import tempfile
import typing as t

from . import net
from .channel import Base

MASK = select.POLLIN | select.POLLOUT | select.POLLHUP | select.POLLERR | select.POLLNVAL
HOW = [socket.SHUT_RD, socket.SHUT_WR, socket.SHUT_RDWR]


class Real:
    """The same calls on the sockets of the kernel."""

    def __init__(self, kind: str) -> None:
        self.family = socket.AF_UNIX if kind == "uds" else socket.AF_INET
        self.dir = tempfile.mkdtemp(prefix="selftest-", dir=os.environ.get("SELFTEST_DIR") or None)

    def socket(self) -> t.Any:
        s = _socket.socket(self.family, socket.SOCK_STREAM)
        s.settimeout(0)
        return s

    def address(self, name: str) -> t.Any:
        return os.path.join(self.dir, name) if self.family == socket.AF_UNIX else ("127.0.0.1", 0)

    def accept(self, s: t.Any) -> t.Any:
        fd, _ = s._accept()
        c = _socket.socket(fileno=fd)
        c.settimeout(0)
        return c

    def poll(self, s: t.Any, timeout: float = 0) -> int:
        p = net.REAL_POLL()
        p.register(s.fileno(), select.POLLIN | select.POLLOUT)
        r = p.poll(timeout)
        return r[0][1] if r else 0

    def settle(self) -> None:
        if self.family != socket.AF_UNIX:
            net.REAL_POLL().poll(2)


class Fake:
    def __init__(self, kind: str, sim: t.Any, where: str) -> None:
        self.family = socket.AF_UNIX if kind == "uds" else socket.AF_INET
        self.dir = where
        self.sim = sim

    def socket(self) -> t.Any:
        s = socket.socket(self.family, socket.SOCK_STREAM)
        s.settimeout(0)
        return s

    address = Real.address

    def accept(self, s: t.Any) -> t.Any:
        c, _ = s.accept()
        c.settimeout(0)
        return c

    def poll(self, s: t.Any, timeout: float = 0) -> int:
        p = select.poll()
        p.register(s.fileno(), select.POLLIN | select.POLLOUT)
        r = p.poll(timeout)
        return r[0][1] if r else 0

    def settle(self) -> None:
        self.sim.sleep(0.001)


class Model(Base):
    def build(self) -> None:
        np = self.env.net.policy
        np.p_short_read = np.p_short_write = 0.0
        np.latency = np.jitter = np.connect_latency = 0.0
        np.capacity = 200_000
        self.cfg.update(kind=self.kind)
        self.sim.policy.p_line = self.sim.policy.p_sys = 0.0
        self.log: list[str] = []
        self.sim.spawn("ops", self._main, client=True)

    def _main(self) -> None:
        base = os.path.join(self.env.root, "real")
        os.makedirs(base)
        os.environ["SELFTEST_DIR"] = base
        real = Real(self.kind)
        fake = Fake(self.kind, self.sim, self.env.tmp)
        self.pairs: dict[str, tuple[t.Any, t.Any]] = {}
        self.worlds = (fake, real)
        try:
            self._ops()
        finally:
            for _, r in self.pairs.values():
                r.close()
            shutil.rmtree(real.dir)

    def both(self, what: str, fn: t.Callable[[t.Any, int], t.Any]) -> t.Any:
        res = []
        for i, w in enumerate(self.worlds):
            try:
                v = fn(w, i)
            except OSError as e:
                v = errno.errorcode.get(e.errno or 0, str(e))
            w.settle()
            res.append(v)
        shown = [x[:6] if isinstance(x, bytes) else x if isinstance(x, (str, int, type(None))) else "socket" for x in res]
        self.log.append(f"{what}: {shown[1]!r}")
        self.count("model.ops")
        self.count("model." + what.split()[0])
        if isinstance(res[1], bytes) and isinstance(res[0], bytes) and len(res[0]) != len(res[1]) and res[0].startswith(res[1]) and res[1]:
            return False  # less at once than there is, as it may
        if shown[0] != shown[1] or isinstance(res[0], bytes) and res[0] != res[1]:
            self.viol.append(("MODEL", f"MODEL:{self.kind}:{what.split()[0]}", f"{self.kind}: {'; '.join(self.log)} but {shown[0]!r} when simulated", 0))
            return False
        return res

    def count(self, k: str, n: int = 1) -> None:
        self.counts[k] = self.counts.get(k, 0) + n

    def new(self, name: str, res: t.Any) -> bool:
        if res is False:
            return False
        if not isinstance(res[0], (str, int, type(None))):
            self.pairs[name] = (res[0], res[1])
        return True

    def _ops(self) -> None:
        ch = self.ch
        uds = self.kind == "uds"
        backlog = 1 + ch.decide("op", 2)
        addrs: list[t.Any] = [None, None]

        def listen(w: t.Any, i: int) -> t.Any:
            s = w.socket()
            s.bind(w.address("l"))
            s.listen(backlog)
            addrs[i] = s.getsockname()
            return s

        if not self.new("l", self.both("listen", listen)):
            return
        n = queued = 0
        for _ in range(6 + ch.decide("op", 25)):
            cs = [x for x in self.pairs if x != "l"]
            k = ch.weighted("op", [2 if n < 4 else 0, 2, 3, 3, 1.5, 1, 2, 0.5, 0.3, 0.7, 0.4, 0.5])
            if k >= 2 and k not in (8, 9) and not cs:
                continue
            name = cs[ch.decide("op", len(cs))] if cs else ""
            res: t.Any = None
            if k == 0:
                # a new one connects
                if not uds and queued > backlog:
                    continue  # SYN is retried, when is the kernel's business
                n += 1

                def connect(w: t.Any, i: int) -> t.Any:
                    s = w.socket()
                    try:
                        s.connect(addrs[i])
                    except BlockingIOError:
                        if uds:
                            s.close()
                            raise
                        w.settle()
                        w.poll(s, 50)
                        e = s.getsockopt(socket.SOL_SOCKET, socket.SO_ERROR)
                        if e:
                            s.close()
                            return errno.errorcode[e]
                    except OSError:
                        s.close()
                        raise
                    return s

                res = self.both(f"connect c{n}", connect)
                if not self.new(f"c{n}", res):
                    return
                queued += 1
            elif k == 1:
                n += 1
                if "l" not in self.pairs:
                    continue
                res = self.both(f"accept s{n}", lambda w, i: w.accept(self.pairs["l"][i]))
                if not self.new(f"s{n}", res):
                    return
                queued -= f"s{n}" in self.pairs
            elif k == 2:
                size = [1, 10, 1000][ch.decide("op", 3)]
                data = bytes(ch.decide("op", 256) for _ in range(min(size, 3))) * (size // min(size, 3) or 1)
                res = self.both(f"send {name} {len(data)}", lambda w, i: self.pairs[name][i].send(data))
            elif k == 3:
                size = [1, 5, 4096][ch.decide("op", 3)]
                res = self.both(f"recv {name} {size}", lambda w, i: self.pairs[name][i].recv(size))
            elif k == 4:
                how = ch.decide("op", 3)
                res = self.both(f"shutdown {name} {['rd', 'wr', 'rdwr'][how]}", lambda w, i: self.pairs[name][i].shutdown(HOW[how]))
            elif k == 5:
                res = self.both(f"close {name}", lambda w, i: self.pairs[name][i].close())
                self.pairs.pop(name)
            elif k == 6:
                res = self.both(f"poll {name}", lambda w, i: w.poll(self.pairs[name][i]) & MASK)
            elif k == 7:
                res = self.both(f"peek {name}", lambda w, i: self.pairs[name][i].recv(4, socket.MSG_PEEK))
            elif k == 8:
                if "l" not in self.pairs:
                    continue
                if ch.decide("op", 2):
                    res = self.both("shut-listener", lambda w, i: self.pairs["l"][i].shutdown(socket.SHUT_RDWR))
                else:
                    res = self.both("close-listener", lambda w, i: self.pairs["l"][i].close())
                    self.pairs.pop("l")
            elif k == 9:
                if "l" not in self.pairs:
                    continue
                res = self.both("poll-listener", lambda w, i: w.poll(self.pairs["l"][i]) & MASK)
            elif k == 10:
                res = self.both(f"peername {name}", lambda w, i: bool(self.pairs[name][i].getpeername()) and None)
            elif k == 11:
                res = self.both(f"sendall {name}", lambda w, i: self.pairs[name][i].sendall(b"x" * 300))
            if res is False:
                return

    def judge(self) -> None:
        pass
