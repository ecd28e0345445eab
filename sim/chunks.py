"""One byte stream of a client, read by the adapter in pieces of any size at any time.  Judges C03.

The same session runs twice with a debuggee that records and answers what it
receives: first as the tests do it, one whole message at a time, then with the
whole stream cut into pieces at drawn places and with drawn pauses, without
waiting for any answer, and with debug logging on or off.
"""

from __future__ import annotations

import json
import os
import typing as t

from . import kernel
from .channel import FOREVER, Base
from .dapclient import Client

TEXTS = ["plain", "caf\u00e9 \u2713", "\U0001f600\U0001f680", "a\r\n\r\nContent-Length: 5\r\n\r\n{}", "\u0000\u007f\ud7ff", '{"seq": 1, "x": "\\n"}', "\\u00e9\t\"'", "Ω" * 30, ""]


class Run:
    """One adapter process with its debuggee."""

    def __init__(self, name: str) -> None:
        self.name = name
        self.proc: t.Any = None
        self.client: Client = t.cast(Client, None)
        self.stub: t.Any = None
        self.address = ""
        self.got: list[tuple[int, str, str]] = []
        self.closed = False
        self.bye = False
        self.stub_exc: BaseException | None = None


class Req:
    def __init__(self, seq: int, msg: dict[str, t.Any], kind: str) -> None:
        self.seq = seq
        self.msg = msg
        self.kind = kind  # own, attach, forward, bad, early
        self.data = b""
        self.events: list[str] = []  # output events the debuggee sends after its answer
        self.text = ""  # its answer


class Chunks(Base):
    def _text(self) -> str:
        ch = self.ch
        s = TEXTS[ch.decide("text", len(TEXTS))]
        k = ch.weighted("text", [6, 1, 0.6, 0.3])
        return s if not k else (s or "x") * [40, 700, 9000][k - 1]

    def _request(self) -> tuple[str, dict[str, t.Any] | None]:
        ch = self.ch
        k = ch.decide("req", 12)
        n = ch.decide("req", 5)
        x = self._text()
        if k == 0:
            return "setBreakpoints", {"source": {"name": x[:20], "path": f"/p/{x}"}, "lines": [n], "sourceModified": False,
                                      "breakpoints": [{"line": n + i, "condition": x} for i in range(n)]}
        if k == 1:
            return "setVariable", {"variablesReference": n, "name": x[:50], "value": x}
        if k == 2:
            return "variables", {"variablesReference": n}
        if k == 3:
            return "setExceptionBreakpoints", {"filters": ["on_error", x[:30]][: n % 3]}
        if k == 4:
            return ["threads", "configurationDone"][n % 2], None
        if k == 5:
            return "stackTrace", {"threadId": n}
        if k == 6:
            return ["next", "stepIn", "stepOut", "continue"][n % 4], {"threadId": n, "singleThread": bool(n % 2)}
        if k == 7:
            return "scopes", {"frameId": n}
        return "evaluate", {"expression": x, "context": ["repl", "watch", "hover"][n % 3], "frameId": n}

    def _bad(self) -> tuple[str, t.Any]:
        ch = self.ch
        return [("pause", {"threadId": 1}), ("noSuchThing" + TEXTS[1], {"x": self._text()}), ("evaluate", {}), ("setBreakpoints", {"breakpoints": []}),
                ("variables", None)][ch.decide("req", 5)]

    def build(self) -> None:
        ch, sim = self.ch, self.sim
        np = self.env.net.policy
        np.capacity = max(np.capacity, 4096)
        np.p_short_read = np.p_short_write = min(np.p_short_read, 0.02)
        np.latency = np.jitter = np.connect_latency = 0.0
        self.kind = "uds"
        self.addr = "uds://"
        self.debug = ch.flip("cfg", 0.5)
        self.end_kind = ["disconnect", "eof", "truncated", "badseq"][ch.weighted("cfg", [4, 2, 1, 0.5])]
        self.batched = ch.flip("cfg", 0.7)  # not even waiting before the end
        self.size = [1, 3, 17, 200, 5000, 10**7][ch.decide("cfg", 6)]
        self.pause = [0.0, 0.001, 0.5][ch.decide("cfg", 3)]
        self.bias = ch.flip("cfg", 0.5)
        self.env.stdin_cap = [65536, 4096, 64, 7][ch.decide("cfg", 4)]
        self.env.stdout_cap = [65536, 4096, 64][ch.decide("cfg", 3)]
        self.env.p_stdin_short = [0.0, 0.3, 0.9][ch.decide("cfg", 3)]
        self.cfg.update(end=self.end_kind, batched=self.batched, size=self.size, debug=self.debug)
        self.reqs: list[Req] = []
        self.add("initialize", {"adapterID": "ansibug", "clientName": self._text()}, "own")
        for _ in range(ch.decide("req", 3)):
            self.add(*(self._bad() if ch.decide("req", 2) else ("threads", None)), "bad")
        self.add("attach", {"address": "ADDRESS", "connectTimeout": 1e6, "name": self._text()}, "attach")
        for _ in range(1 + ch.decide("req", 12)):
            if ch.flip("req", 0.12):
                self.add(*self._bad(), "bad")
                continue
            r = self.add(*self._request(), "forward")
            r.text = f"answer {r.seq} {self._text()}"
            r.events = [f"event {r.seq} {self._text()}" for _ in range(ch.weighted("req", [4, 2, 1]))]
        if self.end_kind == "disconnect":
            self.add("disconnect", [None, {"terminateDebuggee": True}, {}][ch.decide("req", 3)], "disconnect")
        elif self.end_kind == "badseq":
            self.add("threads", None, "last", seq=900)
        elif self.end_kind == "truncated":
            self.add("threads", None, "last")
            self.cut = 1 + ch.decide("req", 60)
        self.runs: list[Run] = []
        # a bound on the number of steps
        size = sum(len(self.encode(r, "")) for r in self.reqs)
        told = sum(len(json.dumps([r.text, r.events])) for r in self.reqs)
        if size + told > 4000:
            self.env.stdin_cap = max(self.env.stdin_cap, 512, size // 100)
            self.env.stdout_cap = max(self.env.stdout_cap, 512, (size + told) // 100)
            self.env.p_stdin_short = min(self.env.p_stdin_short, 0.3)
        np.capacity = max(np.capacity, (size + told) // 50)
        sim.spawn("client", self._main, client=True)

    def add(self, command: str, args: t.Any, kind: str, seq: int = 0) -> Req:
        m: dict[str, t.Any] = {"seq": seq or len(self.reqs) + 1, "type": "request", "command": command}
        if args is not None:
            m["arguments"] = args
        r = Req(m["seq"], m, kind)
        ch = self.ch
        r.enc = (ch.decide("enc", 2), [None, 1][ch.weighted("enc", [4, 1])], ch.flip("enc", 0.1))  # type: ignore[attr-defined]
        self.reqs.append(r)
        return r

    @staticmethod
    def encode(r: Req, address: str) -> bytes:
        m = r.msg
        if r.kind == "attach":
            m = {**m, "arguments": {**m["arguments"], "address": address}}
        raw, indent, extra = r.enc  # type: ignore[attr-defined]
        try:
            body = json.dumps(m, ensure_ascii=not raw, indent=indent).encode()
        except UnicodeEncodeError:
            body = json.dumps(m, indent=indent).encode()
        head = b"Content-Length: %d\r\n" % len(body)
        if extra:
            head += b"Content-Type: application/vscode-jsonrpc; charset=utf-8\r\n"
        return head + b"\r\n" + body

    def _main(self) -> None:
        for name in ("whole", "pieces"):
            r = Run(name)
            self.runs.append(r)
            pieces = name == "pieces"
            r.stub = self.sim.spawn("stub", lambda r=r: self._stub(r))
            self.until(lambda: bool(r.address))
            caps = self.env.stdin_cap, self.env.p_stdin_short
            if not pieces:
                self.env.stdin_cap, self.env.p_stdin_short = 1 << 20, 0.0
            args = ["--log-file", os.path.join(self.env.root, "da.log"), "--log-level", "debug"] if pieces and self.debug else []
            r.proc, r.client = self.env.start_da(args)
            self.env.stdin_cap, self.env.p_stdin_short = caps
            r.proc.on_exit.append(self.wake)
            if pieces:
                self._pieces(r)
            else:
                self._whole(r)
            c = r.client
            self.until(lambda: not r.proc.alive, 5000.0)
            c.wait(lambda: False, 50.0)
            c.close()

    # ------------------------------------------------------------- debuggee

    def _stub(self, run: Run) -> None:
        from ansibug import dap
        from ansibug._mp_queue import MPProtocol, ServerMPQueue

        outer = self
        by_seq = {r.seq: r for r in self.reqs}

        class Proto(MPProtocol):
            def on_msg_received(self, msg: t.Any) -> None:
                if not isinstance(msg, dap.Request):
                    run.got.append((0, "", repr(msg)))
                    return
                run.got.append((msg.seq, str(getattr(msg.command, "value", msg.command)), repr(msg)))
                if isinstance(msg, dap.DisconnectRequest):
                    run.bye = True
                    outer.wake()
                    return
                r = by_seq.get(msg.seq)
                if isinstance(msg, dap.EvaluateRequest):
                    q.send(dap.EvaluateResponse(request_seq=msg.seq, result=msg.expression, type=r.text if r else ""))
                else:
                    q.send(dap.ErrorResponse(command=msg.command, request_seq=msg.seq, message=r.text if r else ""))
                for e in r.events if r else ():
                    q.send(dap.OutputEvent(category="stdout", output=e))

            def connection_closed(self, exp: BaseException | None) -> None:
                run.closed = True
                outer.wake()

        p = Proto()
        q = ServerMPQueue(self.addr, proto=lambda: p)
        run.address = q.address
        self.wake()
        try:
            q.start(timeout=0)
            self.until(lambda: run.closed or run.bye)
            q.stop()
        except Exception as e:
            run.stub_exc = e

    # --------------------------------------------------------------- clients

    def _answers(self) -> list[Req]:
        return [r for r in self.reqs if r.kind not in ("disconnect", "last")]

    def _settled(self, c: Client) -> bool:
        n = sum(len(r.events) for r in self.reqs)
        return all(r.seq in c.responses for r in self._answers()) and len([e for e in c.events if e["event"] == "output"]) >= n

    def _whole(self, run: Run) -> None:
        c = run.client
        for r in self.reqs:
            if r.kind in ("disconnect", "last"):
                c.wait(lambda: self._settled(c), FOREVER)
            d = self.encode(r, run.address)
            if r.kind == "last" and self.end_kind == "truncated":
                c.raw(d[: self.cut])
                break
            c.raw(d)
            if r.kind != "last":
                c.wait_resp(r.seq, FOREVER)
        if self.end_kind in ("eof", "truncated"):
            c.wait(lambda: self._settled(c), FOREVER)
            c.out.close_writer()

    def _pieces(self, run: Run) -> None:
        ch, sim, c = self.ch, self.sim, run.client
        data = b""
        marks = []
        hold = -1
        for r in self.reqs:
            d = self.encode(r, run.address)
            if r.kind in ("disconnect", "last") and (r.kind == "last" or not self.batched):
                hold = len(data)
            if r.kind == "last" and self.end_kind == "truncated":
                d = d[: self.cut]
            i = d.find(b"\r\n\r\n")
            marks += [len(data), len(data) + 16, len(data) + i + 1, len(data) + i + 3, len(data) + i + 4, len(data) + len(d) - 1]
            data += d
        marks.append(len(data))
        pos = 0
        n = 0
        while pos < len(data) and not c.gone:
            size = self.size if n < 300 else max(self.size, 1500)
            k = 1 + (ch.decide("cut", 2 * size) if size > 1 else 0)
            end = min(pos + k, len(data))
            if self.bias:
                # rather at a boundary of a message or inside its header
                near = [m for m in marks if pos < m <= end]
                if near and ch.decide("cut", 2):
                    end = near[ch.decide("cut", len(near))]
            if pos < hold < end:
                end = hold
            if pos == hold:
                c.wait(lambda: self._settled(c), FOREVER)
            c.raw(data[pos:end])
            pos = end
            n += 1
            if self.pause and ch.flip("pace", 0.3):
                sim.sleep(self.pause)
        self.count("c03.pieces", n)
        if self.end_kind in ("eof", "truncated"):
            c.wait(lambda: self._settled(c), FOREVER)
            c.out.close_writer()

    # ----------------------------------------------------------------- judge

    def judge(self) -> None:
        slow = self.sim.stalled > 4  # the adapter waits only so long for the debuggee to leave
        for r in self.runs:
            self.judge_run(r, slow)
        if len(self.runs) == 2 and not slow:
            a, b = self.runs
            if a.got != b.got:
                i = next((i for i, (x, y) in enumerate(zip(a.got, b.got)) if x != y), min(len(a.got), len(b.got)))
                self.bad("C03", "debuggee", f"the playbook received {b.got[i:i + 1]!r:.300} instead of {a.got[i:i + 1]!r:.300} as message {i + 1}")
            if a.proc.exit_code != b.proc.exit_code:
                self.bad("C03", "exit", f"the adapter ended with {b.proc.exit_code} instead of {a.proc.exit_code}")
            ka, kb = ([self.kinds(m) for m in r.client.msgs if r.client] for r in (a, b))
            if sorted(ka) != sorted(kb):
                self.bad("C03", "output", f"the client received {[k for k in kb if k not in ka][:3]!r:.300} instead of {[k for k in ka if k not in kb][:3]!r:.300}")
        self.check_threads_c03()

    @staticmethod
    def kinds(m: dict[str, t.Any]) -> tuple[t.Any, ...]:
        return (m.get("type"), str(m.get("command") or m.get("event")), m.get("request_seq") or 0, str(m.get("success")))

    def judge_run(self, run: Run, slow: bool) -> None:
        c, who = run.client, run.name
        bad = self.bad
        if run.stub_exc is not None:
            bad("C03", "stub", f"{who}: the debuggee failed with {run.stub_exc!r}")
        if c is None or run.proc.alive:
            return bad("C03", "stuck", f"{who}: the adapter never ended")
        if c.framing_error or c.dec.buf:
            bad("C03", "framing", f"{who}: {c.framing_error} {bytes(c.dec.buf[:80])!r}")
        self.count("c03.requests", len(self.reqs))
        want = []
        for r in self.reqs:
            n = len(c.responses.get(r.seq, []))
            if r.kind == "last":
                if n and self.end_kind == "truncated":
                    bad("C03", "early", f"{who}: a request that was never sent in full was answered")
                continue
            if n != 1:
                if not (r.kind == "disconnect" and slow):
                    bad("C03", "answers", f"{who}: request {r.seq} {r.msg['command']} was answered {n} times")
                continue
            m = c.responses[r.seq][0]
            if m.get("command") != r.msg["command"]:
                bad("C03", "command", f"{who}: the answer to {r.msg['command']} is for {m.get('command')}")
            ok = bool(m.get("success"))
            if r.kind in ("own", "attach") and not ok or r.kind == "bad" and ok:
                bad("C03", "success", f"{who}: {r.msg['command']} was answered with success={ok}")
            if r.kind == "forward":
                want.append(r.seq)
                if r.msg["command"] == "evaluate":
                    got = (ok, m.get("body", {}).get("result"), m.get("body", {}).get("type"))
                    exp: t.Any = (True, r.msg["arguments"]["expression"], r.text)
                else:
                    got = (ok, m.get("message"), None)
                    exp = (False, r.text, None)
                if got != exp and not slow:
                    bad("C03", "answer", f"{who}: {r.msg['command']} was answered with {got!r:.300} instead of {exp!r:.300}")
        if slow:
            return
        fwd = [s for s, _, _ in run.got if s and by_kind(self.reqs, s) == "forward"]
        if fwd != want:
            bad("C03", "forward", f"{who}: the playbook received the requests {fwd} instead of {want}")
        extra = [(s, k) for s, k, _ in run.got if s and by_kind(self.reqs, s) not in ("forward", "disconnect")]
        if extra:
            bad("C03", "foreign", f"{who}: the playbook received {extra[:3]}")
        outs = [e["body"].get("output") for e in c.events if e["event"] == "output"]
        exp = [e for r in self.reqs for e in r.events]
        if outs != exp:
            i = next((i for i, (x, y) in enumerate(zip(outs, exp)) if x != y), min(len(outs), len(exp)))
            bad("C03", "events", f"{who}: output {i + 1} is {outs[i:i + 1]!r:.200} instead of {exp[i:i + 1]!r:.200}")
        n = sum(1 for e in c.events if e["event"] == "terminated")
        if n != 1:
            bad("C03", "terminated", f"{who}: {n} terminated events")

    def check_threads_c03(self) -> None:
        for ev in self.sim.history:
            if ev.kind == "thread.uncaught":
                self.bad("C03", "uncaught", f"uncaught {ev.data.get('exc')} in {ev.who}: {ev.data.get('text')}")


def by_kind(reqs: list[Req], seq: int) -> str:
    return next((r.kind for r in reqs if r.seq == seq), "")


del kernel
