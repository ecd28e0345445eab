"""An independent DAP client: framing, sequence numbers, waiting."""

from __future__ import annotations

import json
import typing as t

from . import kernel
from .net import Pipe


class FramingError(Exception):
    pass


class Decoder:
    """Strict DAP stream decoder."""

    def __init__(self) -> None:
        self.buf = b""

    def feed(self, data: bytes) -> list[dict[str, t.Any]]:
        self.buf += data
        out = []
        while True:
            i = self.buf.find(b"\r\n\r\n")
            if i < 0:
                if len(self.buf) > 200 or (self.buf and not b"Content-Length: ".startswith(self.buf[:16]) and self.buf[:16] != b"Content-Length: "[: len(self.buf[:16])]):
                    raise FramingError(f"garbage in the output stream: {self.buf[:80]!r}")
                return out
            head = self.buf[:i]
            if not head.startswith(b"Content-Length: ") or b"\r\n" in head:
                raise FramingError(f"bad header {head[:80]!r}")
            try:
                n = int(head[16:])
            except ValueError:
                raise FramingError(f"bad header {head[:80]!r}") from None
            if len(self.buf) < i + 4 + n:
                return out
            body = self.buf[i + 4 : i + 4 + n]
            self.buf = self.buf[i + 4 + n :]
            try:
                msg = json.loads(body.decode())
            except ValueError as e:
                raise FramingError(f"bad body {body[:120]!r}: {e}") from None
            out.append(msg)


def frame(msg: dict[str, t.Any], utf8: bool = False) -> bytes:
    body = json.dumps(msg, ensure_ascii=not utf8).encode(errors="surrogatepass")
    return b"Content-Length: %d\r\n\r\n" % len(body) + body


class Client:
    """Drives one DA process through its stdin and stdout pipes."""

    def __init__(self, sim: kernel.Sim, name: str, to_da: Pipe, from_da: Pipe) -> None:
        self.sim = sim
        self.name = name
        self.out = to_da
        self.inp = from_da
        self.seq = 0
        self.msgs: list[dict[str, t.Any]] = []
        self.sent: dict[int, dict[str, t.Any]] = {}
        self.responses: dict[int, list[dict[str, t.Any]]] = {}
        self.events: list[dict[str, t.Any]] = []
        self.q: list[kernel.SimThread] = []
        self.eof = False
        self.framing_error = ""
        self.on_msg: list[t.Callable[[dict[str, t.Any]], None]] = []
        self.dec = Decoder()
        self.gone = False
        self.utf8 = False  # text is sent as it is instead of escaped
        self.deaf = False  # stopped reading before the end of the output
        self.stalled_until = 0.0

    # reader thread body
    def reader(self) -> None:
        while True:
            if self.stalled_until > self.sim.now:
                self.sim.sleep(self.stalled_until - self.sim.now)
            d = self.inp.read(4096)
            if not d:
                break
            try:
                msgs = self.dec.feed(d)
            except FramingError as e:
                self.framing_error = str(e)
                self.sim.log("c.framing", error=str(e))
                break
            for m in msgs:
                self._got(m)
        self.eof = True
        self.sim.log("c.eof", leftover=len(self.dec.buf))
        self.sim.wake_all(self.q)

    def _got(self, m: dict[str, t.Any]) -> None:
        ev = self.sim.log("c.recv", client=self.name, msg=m)
        m["_n"] = ev.n
        m["_t"] = ev.t
        self.msgs.append(m)
        if m.get("type") == "response":
            self.responses.setdefault(m.get("request_seq"), []).append(m)
        elif m.get("type") == "event":
            self.events.append(m)
        for fn in self.on_msg:
            fn(m)
        self.sim.wake_all(self.q)

    # sending
    def raw(self, data: bytes) -> bool:
        if self.gone:
            return False
        try:
            self.out.write(data)
            return True
        except OSError:
            self.sim.log("c.epipe", client=self.name)
            self.gone = True
            return False

    def make(self, command: str, arguments: dict[str, t.Any] | None = None) -> dict[str, t.Any]:
        self.seq += 1
        m: dict[str, t.Any] = {"seq": self.seq, "type": "request", "command": command}
        if arguments is not None:
            m["arguments"] = arguments
        return m

    def send(self, command: str, arguments: dict[str, t.Any] | None = None) -> int:
        m = self.make(command, arguments)
        return self.send_msg(m)

    def send_msg(self, m: dict[str, t.Any]) -> int:
        seq = m["seq"]
        ev = self.sim.log("c.send", client=self.name, msg=dict(m))
        m["_n"] = ev.n
        self.sent[seq] = m
        m2 = {k: v for k, v in m.items() if not k.startswith("_")}
        ok = self.raw(frame(m2, self.utf8))
        m["_ok"] = ok
        return seq

    def respond(self, req: dict[str, t.Any], body: dict[str, t.Any], success: bool = True, message: str | None = None) -> None:
        self.seq += 1
        m: dict[str, t.Any] = {
            "seq": self.seq, "type": "response", "request_seq": req["seq"], "success": success,
            "command": req["command"], "body": body,
        }
        if message:
            m["message"] = message
        self.sim.log("c.respond", client=self.name, msg=dict(m))
        self.raw(frame(m, self.utf8))

    # waiting
    def wait(self, cond: t.Callable[[], bool], timeout: float) -> bool:
        return self.sim.client_wait(lambda: cond() or self.eof, self.q, timeout) and cond()

    def resp(self, seq: int) -> dict[str, t.Any] | None:
        r = self.responses.get(seq)
        return r[0] if r else None

    def wait_resp(self, seq: int, timeout: float) -> dict[str, t.Any] | None:
        self.wait(lambda: seq in self.responses, timeout)
        return self.resp(seq)

    def call(self, command: str, arguments: dict[str, t.Any] | None = None, timeout: float = 60.0) -> dict[str, t.Any] | None:
        return self.wait_resp(self.send(command, arguments), timeout)

    def find_event(self, name: str, after: int = -1) -> dict[str, t.Any] | None:
        for e in self.events:
            if e["event"] == name and e["_n"] > after:
                return e
        return None

    def wait_event(self, name: str, timeout: float, after: int = -1) -> dict[str, t.Any] | None:
        self.wait(lambda: self.find_event(name, after) is not None, timeout)
        return self.find_event(name, after)

    def close(self) -> None:
        """The client process goes away: both pipe ends close."""
        self.gone = True
        self.deaf = not self.eof
        self.out.close_writer()
        self.inp.close_reader()
