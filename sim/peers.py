"""C22: a TLS target that meets peers which are no valid adapters."""

from __future__ import annotations

import pickle
import socket
import ssl
import typing as t

from . import tls
from .attach import World

KINDS_ANY = {"silent": 2, "garbage": 1, "plain": 2, "truncated": 3, "midway": 3, "corrupt": 1.5, "distrust": 1, "drop": 1}
KINDS_CA = {"nocert": 2.5, "rogue": 2.5}


class Peer:
    def __init__(self, name: str, kind: str) -> None:
        self.name = name
        self.kind = kind
        self.hold = 0.0
        self.end = "close"
        self.connected = False
        self.raw = b""  # what it received
        self.clear = b""  # what it received inside TLS
        self.done = False
        self.note = ""


class TlsPeers(World):
    """A few bad peers, then (or meanwhile) a good adapter."""

    def build(self) -> None:
        ch = self.ch
        self.setup_pb()
        self.pb_tls = True
        np = self.env.net.policy
        np.capacity = max(np.capacity, 4096)
        if np.latency > 0.05:
            np.latency, np.jitter = 0.05, 0.05
        self.client_ca = ch.flip("cfg", 0.6)
        self.end_kind = ["attach", "attach", "attach", "nowait", "sigint"][ch.decide("cfg", 5)]
        self.no_wait = self.end_kind == "nowait"
        self.cfg.update(kind=self.kind, end=self.end_kind, ca=self.client_ca, by="address")
        kinds = dict(KINDS_ANY, **(KINDS_CA if self.client_ca else {}))
        names = list(kinds)
        self.peers: list[Peer] = []
        for i in range(1 + ch.decide("cfg", 4)):
            p = Peer(f"peer{i}", names[ch.weighted("cfg", list(kinds.values()))])
            p.hold = [0.0, 0.5, 3.0, 9.5, 11.0, 1e5][ch.decide("cfg", 6)]
            p.end = ["close", "reset", "shutdown"][ch.decide("cfg", 3)]
            self.peers.append(p)
        self.together = ch.flip("cfg", 0.3)  # the good one does not wait for the others
        self.cfg["peers"] = "+".join(p.kind for p in self.peers)
        extra = ["--wrap-tls", "--tls-cert", tls.cert("server")]
        if self.client_ca:
            extra += ["--tls-client-ca", tls.cert("ca")]
        if self.no_wait:
            extra.append("--no-wait")
        self.good: t.Any = None
        self.good_at = -1.0
        self.listen("uds://" if self.kind == "uds" else "tcp://", extra)
        self.main = self.sim.spawn("client", self._main, client=True)

    def _main(self) -> None:
        ch, sim = self.ch, self.sim
        info = self.wait_info()
        if info is None:
            return
        if self.end_kind == "sigint":
            sim.at_step(sim.steps + 100 + ch.decide("end", [800, 4000][ch.decide("end", 2)]), self._sigint)
        for p in self.peers:
            self.sim.spawn(p.name, lambda p=p: self._peer(p, info["address"]), client=True)
            if ch.decide("pace", 2):
                self.until(lambda: p.connected, 20.0)
                if ch.decide("pace", 2):
                    sim.sleep([0.01, 1.0, 12.0][ch.decide("pace", 3)])
        if self.end_kind == "nowait":
            if ch.decide("pace", 2):
                return
        elif self.end_kind == "sigint":
            ans = t.cast(t.Any, self.ans)
            self.until(lambda: not ans.alive, 100.0)
            self._sigint()
            return
        if not self.together:
            self.until(lambda: all(p.connected or p.done for p in self.peers), 200.0)
        self.good_at = sim.now - sim.t0
        self.good = self.attempt("good", self.cfg["peers"], {**self.where(info), **self.tls_args()}, "either" if self.no_wait else "ok",
                                 timeout=600.0, hold=[0.0, 2.0][ch.decide("pace", 2)])

    # ----------------------------------------------------------------- peers

    def _peer(self, p: Peer, address: str) -> None:
        try:
            self._peer_run(p, address)
        except (OSError, ValueError) as e:
            p.note = repr(e)[:100]
        p.done = True
        self.wake()

    def _connect(self, address: str) -> t.Any:
        if self.kind == "uds":
            s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
            s.connect(address[6:])
            return s
        return socket.create_connection(("localhost", int(address.rsplit(":", 1)[1])))

    def _take(self, p: Peer, s: t.Any, timeout: float) -> bytes:
        """Whatever arrives within that time, b"" at the end of the stream."""
        s.settimeout(timeout)
        try:
            d = t.cast(bytes, s.recv(20000))
        except TimeoutError:
            return b""
        finally:
            s.settimeout(None)
        p.raw += d
        return d

    def _leave(self, p: Peer, s: t.Any) -> None:
        """Stays as it is for a while and goes away in some way."""
        left = self.sim.now + p.hold
        while self.sim.now < left:
            if not self._take(p, s, left - self.sim.now):
                break
        if p.hold > 1000:
            self.until(lambda: t.cast(t.Any, self.ans).alive is False, p.hold)
        if p.end == "reset":
            self.sim.fault("connection_reset")
            s._k.reset()
        elif p.end == "shutdown":
            s.shutdown(socket.SHUT_WR)
            self._take(p, s, 100.0)
        s.close()

    def _peer_run(self, p: Peer, address: str) -> None:
        ch = self.ch
        s = self._connect(address)
        p.connected = True
        self.sim.fault(f"tls_peer_{p.kind}")
        self.wake()
        if p.kind == "silent":
            return self._leave(p, s)
        if p.kind == "drop":
            s.close()
            return
        if p.kind == "garbage":
            n = 1 + ch.decide("peer", 400)
            s.sendall(bytes((i * 37 + n) & 255 for i in range(n)))
            return self._leave(p, s)
        if p.kind == "plain":
            # the debug protocol without TLS
            s.sendall(self._requests())
            return self._leave(p, s)
        ctx = tls.client_context(None)
        if p.kind == "distrust":
            ctx = tls.client_context("otherca")
        elif p.kind == "rogue":
            ctx.load_cert_chain(tls.cert("rogue"))
        inb, outb = ssl.MemoryBIO(), ssl.MemoryBIO()
        obj = ctx.wrap_bio(inb, outb, server_side=False, server_hostname="localhost")
        step = 0
        hurt = p.kind in ("truncated", "midway", "corrupt")
        at = {"truncated": 0, "midway": 1, "corrupt": ch.decide("peer", 2)}.get(p.kind, 0)
        while True:
            fin = False
            try:
                obj.do_handshake()
                fin = True
            except ssl.SSLWantReadError:
                pass
            except ssl.SSLError:
                if outb.pending:
                    s.sendall(outb.read())
                return self._leave(p, s)
            data = outb.read() if outb.pending else b""
            if hurt and (fin or step == at):
                if p.kind == "corrupt":
                    b = bytearray(data)
                    i = ch.decide("peer", len(b))
                    b[i] ^= 1 + ch.decide("peer", 255)
                    # the last flight arrives broken: the peer cannot be accepted
                    data = bytes(b)
                    s.sendall(data)
                    if not fin and step == at and at == 0:
                        # a changed hello may still be a good one, it goes no further
                        return self._leave(p, s)
                else:
                    s.sendall(data[: ch.decide("peer", len(data))])
                return self._leave(p, s)
            if data:
                s.sendall(data)
            if fin:
                break
            step += 1
            d = self._take(p, s, 100.0)
            if not d:
                return self._leave(p, s)
            inb.write(d)
        # as far as this side knows it is in
        obj.write(self._requests())
        s.sendall(outb.read())
        end = self.sim.now + min(p.hold, 50.0)
        while True:
            try:
                d = obj.read(4096)
                if not d:
                    break
                p.clear += d
            except ssl.SSLWantReadError:
                r = self._take(p, s, max(0.001, end - self.sim.now))
                if not r:
                    break
                inb.write(r)
            except ssl.SSLError:
                break
        self._leave(p, s)

    @staticmethod
    def _requests() -> bytes:
        from ansibug import dap

        out = b""
        for i, m in enumerate((dap.ThreadsRequest(), dap.ConfigurationDoneRequest(), dap.TerminateRequest())):
            m.seq = i + 1
            d = pickle.dumps(m)
            out += len(d).to_bytes(4, "little") + d
        return out

    # --------------------------------------------------------------- judging

    def judge(self) -> None:
        sim = self.sim
        slow = sim.stalled > 4
        for p in self.peers:
            self.count("c22.peers", int(p.connected))
            self.count(f"c22.{p.kind}", int(p.connected))
            if p.clear:
                self.bad("C22", "leak", f"{p.name} ({p.kind}) was sent {p.clear[:60]!r} inside TLS")
            bad = self._not_tls(p.raw)
            if bad:
                self.bad("C22", "cleartext", f"{p.name} ({p.kind}) was sent {bad} without TLS")
        a = self.good
        if a is not None:
            if slow:
                a.expect = "either"
            self.judge_attempt("C22", a)
            if a.ok:
                self.count("c22.attached")
        if self.end_kind == "attach" and (a is None or not a.ok) and not slow:
            self.bad("C22", "blocked", "the good adapter was not let in")
        if not self.no_wait and not any(x.ok for x in self.attempts):
            if any(e.kind in ("play.start", "task.start") for e in sim.history) and self.end_kind != "sigint":
                self.bad("C22", "reached", "the playbook started although no adapter was let in")
        elif not self.no_wait:
            first = next((e for e in sim.history if e.kind in ("play.start", "task.start")), None)
            done = next((e for e in sim.history if e.kind == "c.send" and e.data["msg"].get("command") == "configurationDone"), None)
            if first is not None and (done is None or done.n > first.n) and not any(
                    e.kind == "c.send" and e.data["msg"].get("command") == "disconnect" and e.n < first.n for e in sim.history):
                self.bad("C22", "reached", "the playbook started before the adapter said that it is configured")
        ans = t.cast(t.Any, self.ans)
        if ans.alive:
            if not (slow and self.end_kind == "attach" and (a is None or not a.ok)):
                self.bad("C22", "playbook-stuck", f"the playbook never ended ({self.end_kind})")
        elif self.end_kind != "sigint":
            self.judge_playbook("C22")
        if not ans.alive:
            if self.end_kind == "sigint":
                sig = next((e for e in sim.history if e.kind == "interrupt"), None)
                end = next((e for e in sim.history if e.kind == "proc.exit" and e.data.get("proc") == "ans"), None)
                inside = sig is not None and "v2_playbook_on_start" in sig.data["stack"] and "wait_for_config_done" not in sig.data["stack"]
                if sig is not None and end is not None and end.t > sig.t + 5.0 + sim.stalled:
                    self.bad("C22", "slow-end", f"the interrupted playbook took {end.t - sig.t:.1f} s to end")
                if not inside:
                    self.judge_residue("C22")
            else:
                self.judge_residue("C22")
        self.check_adapters("C22")

    @staticmethod
    def _not_tls(raw: bytes) -> str:
        """What is not a sequence of TLS records."""
        i = 0
        while i < len(raw):
            if raw[i] not in (20, 21, 22, 23) or raw[i + 1 : i + 2] not in (b"", b"\x03"):
                return repr(raw[i : i + 40])
            if i + 5 > len(raw):
                return ""
            i += 5 + int.from_bytes(raw[i + 3 : i + 5], "big")
        return ""

    def detail(self) -> str:
        out = super().detail()
        for p in self.peers:
            out += f"{p.name} {p.kind} hold={p.hold} end={p.end} connected={p.connected} done={p.done} {p.note} raw={len(p.raw)} clear={p.clear!r}\n"
        return out
