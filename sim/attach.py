"""How sessions come about: launches, attaches, TLS peers and the published file.

Every world has one real playbook process at most and any number of adapters,
foreign sockets and faults around it.  Judges C20, C21, C22 and C23.
"""

from __future__ import annotations

import errno
import json
import os
import signal
import typing as t

from . import env as E
from . import kernel, pbgen, tls
from .channel import Base
from .dapclient import Client

BIG = 1e9


class Attempt:
    """One launch or attach as its client saw it."""

    def __init__(self, name: str) -> None:
        self.name = name
        self.proc: t.Any = None
        self.client: Client = t.cast(Client, None)
        self.seq = 0
        self.sent = -1.0
        self.timeout = 5.0
        self.steps = 1  # how many of the connection's steps may each take the timeout
        self.resp: dict[str, t.Any] | None = None
        self.resp_at = -1.0
        self.expect = "ok"  # ok, fail, either
        self.why = ""
        self.done = False
        self.terminated_at = -1.0
        self.disconnected = False
        self.hold = 0.0  # how long configurationDone is held back
        self.leave = -1.0  # the client disconnects by itself after that time
        self.wants_resp = True

    @property
    def ok(self) -> bool:
        return bool(self.resp and self.resp.get("success"))


class World(Base):
    """Base of the scenarios with a playbook."""

    client_ca = False
    interrupted = False
    no_wait = False
    drops = 0
    timeout = 5.0

    def setup_pb(self, **kw: t.Any) -> None:
        shape = {"max_plays": 1, "max_items": 2, "max_depth": 1, "budget": 4, "failures": False, "roles": False, "refresh": False,
                 "serial": False, "gather": False}
        shape.update(kw)
        self.pb = pbgen.generate(self.ch, self.env.pb, pbgen.Shape(**shape))
        self.base_rc, self.base_hist, _ = self.env.baseline([self.pb.main, *self.pb.args])
        self.base_tasks = sum(1 for e in self.base_hist if e.kind == "task.end")
        self.attempts: list[Attempt] = []
        self.ans: kernel.SimProcess | None = None
        self.spied: set[str] = set()
        self.spy_sig: dict[str, t.Any] = {}
        self.spy_last: dict[str, t.Any] = {}
        self.published: dict[int, float] = {}
        self.accepted: set[str] = set()  # processes that let somebody in
        self.pb_tls = False
        self.sim.probe = self._spy
        self.sim.watchers.append(self._woken)
        self.sim.watchers.append(self._watch)

    # what may fail in a process, and how
    SYS: t.ClassVar[dict[str, list[int]]] = {
        "socket": [errno.EMFILE, errno.ENFILE, errno.ENOBUFS], "bind": [errno.EADDRINUSE, errno.EACCES, errno.ENOSPC],
        "accept": [errno.ECONNABORTED, errno.EMFILE, errno.ENOMEM],
        "connect": [errno.ECONNREFUSED, errno.ETIMEDOUT, errno.EPERM], "select": [errno.ENOMEM], "poll": [errno.ENOMEM],
        "mkstemp": [errno.EMFILE, errno.EROFS],
        "file.open": [errno.EMFILE, errno.EACCES], "file.write": [errno.EIO], "file.replace": [errno.EIO, errno.EACCES],
        "file.rename": [errno.EIO], "thread.start": [0], "subprocess.run": [errno.EAGAIN, errno.ENOMEM], "execve": [errno.ENOMEM],
        "setblocking": [errno.EBADF],
    }

    def draw_sysfail(self, procs: list[str], calls: list[str] | None = None) -> None:
        ch = self.ch
        calls = calls or list(self.SYS)
        call = calls[ch.decide("cfg", len(calls))]
        codes = self.SYS[call]
        proc = procs[ch.decide("cfg", len(procs))]
        sf = kernel.SysFail(proc, call, ch.decide("cfg", 4), codes[ch.decide("cfg", len(codes))])
        self.sim.sysfail = sf
        self.cfg["sysfail"] = f"{proc}/{call}#{sf.nth}={errno.errorcode.get(sf.errno, sf.errno)}"

    def sysfailed(self) -> str:
        """What failed, if it did."""
        return next((k for k in self.sim.faults if k.startswith("failed_")), "")

    def _woken(self, ev: kernel.Event) -> None:
        if ev.kind in ("proc.exit", "net.accept", "playbook.start", "playbook.end", "exec"):
            self.wake()

    # ------------------------------------------------------------- playbook

    def listen(self, addr: str, extra: list[str] | None = None) -> None:
        self.ans = self.env.start_ansibug(["listen", "--addr", addr, *(extra or []), self.pb.main, *self.pb.args])
        self.listen_addr = addr

    def info_path(self, pid: int) -> str:
        return os.path.join(self.env.tmp, f"ansibug-pid-{pid}")

    def info(self) -> dict[str, t.Any] | None:
        assert self.ans is not None
        try:
            with open(self.info_path(self.ans.pid)) as f:
                return t.cast(dict[str, t.Any], json.loads(f.read()))
        except (OSError, ValueError):
            return None

    def wait_info(self) -> dict[str, t.Any] | None:
        """Looks for the advertised process the way an editor does."""
        assert self.ans is not None
        while self.ans.alive:
            d = self.info()
            if d is not None:
                return d
            self.sim.wait_on(self.q, "poll", 0.05)
        return None

    def _spy(self) -> None:
        """What another process sees in the temporary directory, at any time."""
        try:
            names = [n for n in os.listdir(self.env.tmp) if n.startswith("ansibug-pid-")]
        except OSError:
            return
        for n in names:
            path = os.path.join(self.env.tmp, n)
            try:
                st = os.stat(path)
                fd = kernel_open(path)
            except OSError:
                continue
            try:
                data = os.read(fd, 1 << 16)
            finally:
                kernel_close(fd)
            sig = (st.st_ino, st.st_size, st.st_mtime_ns, data)
            fresh = sig != self.spy_sig.get(n)
            self.spy_sig[n] = sig
            self._judge_info(n, data, fresh)

    def _spy_bad(self, code: str, msg: str) -> None:
        if code not in self.spied:
            self.spied.add(code)
            self.bad("C23", code, msg)

    def exempt(self) -> bool:
        """An interrupt at a moment at which Python cannot clean up reliably."""
        for e in self.sim.history:
            if e.kind == "interrupt":
                st = e.data["stack"]
                if "run_playbook" not in st or "v2_playbook_on_start" in st and "wait_for_config_done" not in st:
                    return True
        return False

    def _judge_info(self, name: str, data: bytes, fresh: bool) -> None:
        ans = next((p for p in self.env.playbooks if name == f"ansibug-pid-{p.pid}"), None)
        if ans is None:
            if self.env.playbooks:
                self._spy_bad("name", f"{name} is published but no process has that number")
            return
        if ans.exit_how == "killed":
            return
        if not ans.alive:
            if self.sim.current is not None and self.sim.current.proc is ans or self.exempt():
                return
            return self._spy_bad("stale", f"{name} is still there although the process ended")
        if fresh:
            self.count("c23.seen")
            try:
                d = json.loads(data)
            except ValueError:
                return self._spy_bad("incomplete", f"{name} is visible with the content {data[:80]!r}")
            self.spy_last[name] = d
            self.published.setdefault(ans.pid, self.sim.now)
            if d.get("pid") != ans.pid:
                self._spy_bad("pid", f"{name} names process {d.get('pid')}")
            if d.get("use_tls") is not self.pb_tls:
                self._spy_bad("tls", f"{name} says use_tls={d.get('use_tls')!r} but it is {self.pb_tls}")
            if d.get("playbook_file") != self.pb.main:
                self._spy_bad("playbook", f"{name} names the playbook {d.get('playbook_file')!r}")
        elif name not in self.spy_last:
            return
        d = self.spy_last[name]
        if ans.name not in self.accepted:
            # until somebody was let in the address is one that is listened on
            a = str(d.get("address"))
            ok = False
            for k in self.env.net.all:
                if k.state == "listening" and k.refs > 0:
                    if a == f"uds://{k.name}" or k.family != 1 and a.startswith("tcp://") and a.endswith(f":{k.name[1]}"):
                        ok = True
            if ok:
                self.unbound_at = -1.0
            elif self.unbound_at < 0:
                self.unbound_at = self.sim.now  # on its way out the listener is closed first
            elif self.sim.now > self.unbound_at + 5.0 + self.sim.stalled:
                self._spy_bad("address", f"{name} names {a} but nothing listens there")

    unbound_at = -1.0

    @property
    def conn_accepted(self) -> bool:
        return bool(self.accepted)

    def _sigint(self) -> None:
        if self.ans is not None and self.ans.alive and not self.interrupted:
            self.interrupted = True  # a second one may well interrupt the cleaning up
            self.sim.fault("sigint_ans")
            self.sim.interrupt(self.ans)

    def _watch(self, ev: kernel.Event) -> None:
        if ev.kind == "net.accept" and ev.who.startswith("ans"):
            self.accepted.add(ev.who.split("/")[0])

    # -------------------------------------------------------------- adapters

    def adapter(self, name: str) -> Attempt:
        a = Attempt(name)
        a.proc, a.client = self.env.start_da()
        a.proc.on_exit.append(self.wake)
        self.attempts.append(a)
        return a

    def drive(self, a: Attempt, command: str, args: dict[str, t.Any], terminal: t.Callable[[dict[str, t.Any]], None] | None = None) -> None:
        """The client of one attempt, in a thread of its own."""
        c, sim, ch = a.client, self.sim, self.ch
        c.on_msg.append(lambda m: self._saw(a, m))
        c.wait_resp(c.send("initialize", {"adapterID": "ansibug"}), BIG)
        a.sent = sim.now - sim.t0
        a.seq = c.send(command, args)
        if terminal is not None:
            c.wait(lambda: self._rit(c) is not None or a.seq in c.responses, BIG)
            req = self._rit(c)
            if req is not None and a.seq not in c.responses:
                terminal(req)
        if a.leave >= 0:
            c.wait(lambda: a.seq in c.responses, a.leave)
        else:
            c.wait(lambda: a.seq in c.responses or c.find_event("terminated") is not None, BIG)
        if a.resp is None and a.leave < 0 and not c.eof:
            c.wait(lambda: a.seq in c.responses, 5.0)
        if a.ok and not c.eof:
            c.wait(lambda: c.find_event("initialized") is not None or c.find_event("terminated") is not None, BIG)
            if a.hold:
                sim.sleep(a.hold)
            if c.find_event("initialized") is not None and not c.eof:
                c.wait_resp(c.send("configurationDone"), BIG)
            c.wait(lambda: c.find_event("terminated") is not None, BIG)
        if not c.eof:
            a.disconnected = True
            c.wait_resp(c.send("disconnect", None), BIG)
            if ch.decide("cl", 2):
                c.wait(lambda: False, BIG)
        a.done = True
        c.close()
        self.wake()

    def _saw(self, a: Attempt, m: dict[str, t.Any]) -> None:
        if m.get("type") == "response" and m.get("request_seq") == a.seq and a.resp is None:
            a.resp = m
            a.resp_at = m["_t"]
            self.sim.log("attempt.answer", name=a.name, ok=a.ok)
            self.wake()
        if m.get("type") == "event" and m.get("event") == "terminated" and a.terminated_at < 0:
            a.terminated_at = m["_t"]

    @staticmethod
    def _rit(c: Client) -> dict[str, t.Any] | None:
        for m in c.msgs:
            if m.get("type") == "request" and m.get("command") == "runInTerminal":
                return m
        return None

    def tls_args(self) -> dict[str, t.Any]:
        if not self.pb_tls:
            return {}
        d: dict[str, t.Any] = {"useTls": True, "tlsVerification": tls.cert("ca") if self.kind == "tcp" else "ignore"}
        if self.client_ca:
            d["tlsCertificate"] = tls.cert("client")
        return d

    def where(self, info: dict[str, t.Any], by: str | None = None) -> dict[str, t.Any]:
        if (by or self.cfg.get("by")) == "pid" and (self.kind == "uds" or not self.pb_tls):
            return {"processId": info["pid"]}
        return {"address": self.target(info["address"]), "useTls": bool(info["use_tls"])}

    def attempt(self, name: str, why: str, args: dict[str, t.Any], expect: str, timeout: float | None = None, hold: float = 0.0,
                steps: int = 4) -> Attempt:
        a = self.adapter(name)
        a.why, a.expect, a.hold = why, expect, hold
        a.timeout = self.timeout if timeout is None else timeout
        a.steps = steps
        full = {"connectTimeout": a.timeout, **args}
        self.sim.spawn("client", lambda: self.drive(a, "attach", full), client=True)
        return a

    # ---------------------------------------------------------------- judging

    def slack(self) -> float:
        np = self.env.net.policy
        return 10.0 + self.sim.stalled + 40 * (np.latency + np.jitter + np.connect_latency)

    def judge_attempt(self, prop: str, a: Attempt) -> None:
        n = len(a.client.responses.get(a.seq, []))
        what = f"{a.name} ({a.why})"
        self.count(f"{prop.lower()}.attempts")
        if n > 1:
            self.bad(prop, "answers", f"{what} was answered {n} times")
        if a.proc.alive:
            self.bad(prop, "adapter-stuck", f"the adapter of {what} never ended")
        if a.client.framing_error:
            self.bad(prop, "framing", a.client.framing_error)
        if a.resp is None:
            if a.wants_resp:
                self.bad(prop, "unanswered", f"{what} was never answered")
            return
        self.count(f"{prop.lower()}.{'ok' if a.ok else 'failed'}")
        if a.expect == "ok" and not a.ok:
            self.bad(prop, "refused", f"{what} failed: {str(a.resp.get('message'))[-300:]}")
        elif a.expect == "fail" and a.ok:
            self.bad(prop, "accepted", f"{what} succeeded")

    def judge_playbook(self, prop: str, ran: bool = True) -> None:
        """The playbook ends as it does without a debugger."""
        ans = self.ans
        if ans is None:
            return
        if ans.alive:
            return self.bad(prop, "playbook-stuck", "the playbook never ended")
        if ans.exit_how == "killed":
            return
        n = sum(1 for e in self.sim.history if e.kind == "task.end")
        if ran and (ans.exit_code != self.base_rc or n != self.base_tasks):
            self.bad(prop, "playbook", f"the playbook ended with {ans.exit_code} after {n} tasks instead of {self.base_rc} after {self.base_tasks}:"
                     f" {' '.join(self.env.arun.display[-3:])[:300]}")

    def judge_residue(self, prop: str, allowed: tuple[str, ...] = ()) -> None:
        left = [n for n in self.env.residue() if not n.startswith(allowed)] if allowed else self.env.residue()
        if left:
            self.bad(prop, "residue", f"left behind: {left}")

    def check_adapters(self, prop: str) -> None:
        for ev in self.sim.history:
            if ev.kind == "thread.uncaught":
                self.bad(prop, "uncaught", f"uncaught {ev.data.get('exc')} in {ev.who}: {ev.data.get('text')}")

    def detail(self) -> str:
        out = super().detail()
        for a in self.attempts:
            out += (f"{a.name} ({a.why}): expect={a.expect} T={a.timeout} sent={a.sent:.2f} answered={a.resp_at:.2f} ok={a.ok}"
                    f" exit={a.proc.exit_code} {str((a.resp or {}).get('message'))[-200:]!r}\n")
        for root, _, files in sorted(os.walk(os.path.dirname(self.pb.main))):
            for fn in sorted(files):
                with open(os.path.join(root, fn), errors="replace") as f:
                    out += f"----- {fn}\n{f.read()}"
        if self.env.arun:
            out += "----- output of Ansible\n" + "\n".join(self.env.arun.display)
        return out + f"\nresidue={self.env.residue()} alive={self.env.alive()}\n"


def kernel_open(path: str) -> int:
    from . import seams

    return seams.real_os_open(path, os.O_RDONLY)


def kernel_close(fd: int) -> None:
    from . import seams

    seams.real_os_close(fd)


# ------------------------------------------------------------------------ C21


class Attach(World):
    """Attach requests to targets in every condition."""

    KINDS = {"ready": 3, "nofile": 1, "stale": 1, "refused": 1, "silent": 1.5, "backlog": 1, "blackhole": 0.7, "closing": 1, "badaddr": 0.5,
             "nohost": 0.4, "noaddr": 0.4, "tls_to_plain": 1, "plain_to_tls": 1, "untrusted": 1, "nocert": 1, "busy": 2, "race": 2, "ended": 1, "sysfail": 3}

    def build(self) -> None:
        ch, sim = self.ch, self.sim
        self.setup_pb()
        ks = list(self.KINDS)
        self.case = ks[ch.weighted("cfg", list(self.KINDS.values()))]
        if self.case == "blackhole":
            self.kind = "tcp"
        self.pb_tls = self.case in ("plain_to_tls", "untrusted", "nocert") or ch.flip("cfg", 0.15)
        if self.case == "tls_to_plain":
            self.pb_tls = False
        self.timeout = [5.0, 0.5, 60.0, 600.0][ch.decide("cfg", 4)]
        if self.pb_tls and self.env.net.policy.latency > 0.01:
            self.env.net.policy.capacity = max(self.env.net.policy.capacity, 4096)
        self.cfg.update(kind=self.kind, case=self.case, tls=self.pb_tls, T=self.timeout, by=["pid", "address"][ch.decide("cfg", 2)])
        if self.case == "sysfail":
            self.draw_sysfail(["da", "ans"])
        self.raw_addr = ""
        if self.kind == "tcp" and ch.flip("cfg", 0.4):
            # a name of several hosts, only one of them is the right one
            hosts: list[tuple[int, str]] = []
            for i in range(1 + ch.decide("cfg", 3)):
                v6 = bool(ch.decide("cfg", 2))
                ip = f"fd00::{i + 1}" if v6 else f"10.0.0.{i + 1}"
                how = ["refuse", "unreach", "drop"][ch.weighted("cfg", [3, 1, 1])]
                self.env.net.down[ip] = how
                self.drops += how == "drop"
                hosts.append((10 if v6 else 2, ip))
            hosts.insert(ch.decide("cfg", len(hosts) + 1), [(2, "127.0.0.1"), (10, "::1")][ch.decide("cfg", 2)])
            self.env.net.dns["localhost"] = hosts
            self.cfg["hosts"] = ",".join(self.env.net.down.get(h[1], "up") for h in hosts)
        live = self.case not in ("silent", "backlog", "blackhole", "closing", "badaddr", "nohost", "noaddr", "nofile", "refused")
        if live or ch.flip("cfg", 0.3):
            extra = []
            if self.pb_tls:
                extra = ["--wrap-tls", "--tls-cert", tls.cert("server")]
                if self.case == "nocert" or ch.flip("cfg", 0.2):
                    extra += ["--tls-client-ca", tls.cert("ca")]
                    self.client_ca = True
            self.no_wait = ch.flip("cfg", 0.1) and self.case in ("ready", "race")
            if self.no_wait:
                extra.append("--no-wait")
            self.listen("uds://" if self.kind == "uds" else "tcp://", extra)
        self.main = sim.spawn("client", self._main, client=True)

    def _main(self) -> None:
        ch, sim = self.ch, self.sim
        case = self.case
        exp_ok = "ok" if self.timeout >= 5 and not self.no_wait else "either"
        if case in ("silent", "backlog", "closing", "blackhole"):
            self._raw_server()
            self.first = self.attempt("first", case, {"address": self.raw_addr, **({"useTls": True, "tlsVerification": "ignore"} if ch.flip("cfg", 0.3) else {})}, "fail")
        elif case == "nofile":
            pid = self.ans.pid if self.ans is not None else 99
            self.first = self.attempt("first", case, {"processId": pid if self.ans is not None and self.info() is None else 99}, "either" if self.ans else "fail")
        elif case == "refused":
            addr = "uds://" + os.path.join(self.env.tmp, "nothing") if self.kind == "uds" else "tcp://localhost:39999"
            self.first = self.attempt("first", case, {"address": addr}, "fail")
        elif case == "badaddr":
            self.first = self.attempt("first", case, {"address": ["http://x", "tcp://nohost", "plain", "uds://a/b"][ch.decide("cfg", 4)]}, "fail")
        elif case == "nohost":
            self.env.net.dns["gone.example"] = []
            self.first = self.attempt("first", case, {"address": "tcp://gone.example:40001"}, "fail")
        elif case == "noaddr":
            self.first = self.attempt("first", case, {}, "fail")
        else:
            info = self.wait_info()
            if info is None:
                return
            if ch.flip("cl", 0.3):
                sim.sleep([0.1, 1.0, 30.0][ch.decide("cl", 3)])
            if case == "stale":
                assert self.ans is not None
                sim.fault("kill_ans")
                sim.kill(self.ans)
                self.first = self.attempt("first", case, {**self.where(info), **self.tls_args()}, "fail")
                return
            if case == "ended":
                # goes away by itself around the time of the attempt
                assert self.ans is not None
                self.first = self.attempt("first", case, {**self.where(info), **self.tls_args()}, "either")
                sim.at_step(sim.steps + ch.decide("end", [600, 2500, 6000][ch.decide("end", 3)]), lambda: self._sigint())
                self.until(lambda: not t.cast(t.Any, self.ans).alive, 1000.0)
                self._sigint()
                return
            if case == "sysfail":
                self.first = self.attempt("first", case, {**self.where(info), **self.tls_args()}, "either")
            if case == "ready":
                self.first = self.attempt("first", case, {**self.where(info), **self.tls_args()}, exp_ok)
            elif case == "busy":
                a = self.attempt("holder", case, {**self.where(info), **self.tls_args()}, "ok", timeout=600.0, hold=100.0)
                self.until(lambda: a.resp is not None or not a.proc.alive)
                self.attempt("intruder", case, {**self.where(info, "address" if ch.decide("cl", 2) else None), **self.tls_args()},
                             "fail" if a.ok else "either")
                return
            elif case == "race":
                for i in range(2 + ch.decide("cfg", 2)):
                    self.attempt(f"racer{i}", case, {**self.where(info), **self.tls_args()}, "either", hold=[0.0, 5.0][ch.decide("cl", 2)])
                return
            elif case == "tls_to_plain":
                self.first = self.attempt("first", case, {"address": self.target(info["address"]), "useTls": True, "tlsVerification": "ignore"}, "fail")
            elif case == "plain_to_tls":
                self.first = self.attempt("first", case, {"address": self.target(info["address"]), "useTls": False}, "fail")
            elif case == "untrusted":
                self.first = self.attempt("first", case, {"address": self.target(info["address"]), "useTls": True,
                                                          "tlsVerification": tls.cert("otherca"), **({"tlsCertificate": tls.cert("client")} if self.client_ca else {})}, "fail")
            elif case == "nocert":
                args = {"address": self.target(info["address"]), **self.tls_args()}
                if ch.decide("cfg", 2):
                    args["tlsCertificate"] = tls.cert("rogue")
                else:
                    del args["tlsCertificate"]
                self.first = self.attempt("first", case, args, "fail")
        # a failed attempt leaves a live target as it was
        first = self.first
        self.until(lambda: first.resp is not None or not first.proc.alive)
        if self.ans is None or first.ok or case == "tls_to_plain":
            # bytes of a handshake are a message to a target without TLS: it was accepted and is lost again
            return
        if case in ("ready", "nofile", "sysfail"):
            return  # given up by the adapter in the backlog: looks like a lost debugger later
        info = self.wait_info()
        if info is not None and self.ans.alive and not self.no_wait:
            self.second = self.attempt("second", f"after {case}", {**self.where(info), **self.tls_args()}, "ok", timeout=600.0)

    def _raw_server(self) -> None:
        import socket

        if self.kind == "uds":
            path = os.path.join(self.env.root, "raw")
            s: t.Any = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
            s.bind(path)
            s.listen(5)
            self.raw_addr = "uds://" + path
        else:
            s = socket.create_server(("", 0), family=socket.AF_INET6, dualstack_ipv6=True)
            self.raw_addr = f"tcp://localhost:{s.getsockname()[1]}"
            if self.case == "blackhole":
                self.env.net.blackhole.add(s.getsockname()[1])
        self.raw_sock = s

        def serve() -> None:
            if self.case in ("backlog", "blackhole"):
                self.until(lambda: False)
            while True:
                conn, _ = s.accept()
                if self.case == "closing":
                    if self.ch.decide("peer", 2):
                        self.sim.sleep(0.2)
                    conn.close()
                else:
                    self.keep = conn

        self.sim.spawn("raw", serve, client=True)
        if self.case == "silent":
            self.sim.sleep(0.01)

    def judge(self) -> None:
        sim = self.sim
        wins = [a for a in self.attempts if a.ok]
        for a in self.attempts:
            if a.expect == "ok" and (sim.stalled > a.timeout / 4 or self.slack() - 10 > a.timeout
                                      or self.pb_tls and sim.stalled > 4):
                a.expect = "either"
            self.judge_attempt("C21", a)
            self.count(f"c21.{a.name.rstrip('0123456789').replace('first', '')}{'.' if a.name == 'first' else '.after.' if a.name == 'second' else '.'}{self.case}."
                       f"{'ok' if a.ok else 'failed' if a.resp else 'none'}")
            if a.resp is not None:
                took = a.resp_at - a.sent
                if took > a.timeout * (a.steps + self.drops) + self.slack():
                    self.bad("C21", "slow", f"{a.name} ({a.why}) was answered after {took:.1f} s, the timeout is {a.timeout}")
            if not a.proc.alive and not a.ok and a.resp is not None and a.proc.exit_code != 1:
                self.bad("C21", "exit", f"the adapter of the failed {a.name} ended with {a.proc.exit_code}")
        if len(wins) > 1:
            self.bad("C21", "two", f"{len(wins)} adapters were accepted by one playbook")
        if wins and not self.conn_accepted:
            self.bad("C21", "accepted", f"{wins[0].name} ({wins[0].why}) succeeded but no playbook accepted it")
        if self.case == "race" and not wins and self.timeout >= 60 and not self.no_wait and sim.stalled < 4:
            self.bad("C21", "race", "none of the adapters was accepted")
        # (a thread of Ansible's own may be what could not start)
        if wins and self.case != "ended" and self.sysfailed() != "failed_thread.start":
            self.judge_playbook("C21")
        if self.case == "ended" and self.ans is not None and self.ans.alive:
            self.bad("C21", "playbook-stuck", "the interrupted playbook never ended")
        waiting = self.ans is not None and self.ans.alive
        if not waiting and self.case not in ("stale",) and not self.exempt():
            self.judge_residue("C21", ("nothing",))
        self.check_adapters("C21")

