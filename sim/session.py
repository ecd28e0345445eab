"""A complete debug session: client, adapter, terminal, playbook, faults."""

from __future__ import annotations

import json
import os
import typing as t

from . import env as E
from . import kernel, pbgen, sync
from .choice import Chooser
from .kernel import Event, Policy

BIG = 1e9
CLIENT_PROCS = ("client", "client-reader", "ender", "poker")


class Profile:
    """Knobs of the random session generator; one per group of properties."""

    def __init__(self, name: str, **kw: t.Any) -> None:
        self.name = name
        self.shape: dict[str, t.Any] = {}
        self.modes = {"launch": 6, "attach_pid": 3, "attach_tcp": 2, "attach_uds": 1}
        self.ends: dict[str, float] = {"natural": 1}
        self.noise = [3, 3, 3, 2, 1]  # quiet, low, medium, high, pct
        self.stall = 0.15  # share of runs with multi-second stalls
        self.p_bp = 0.35  # per registered line
        self.filters = 0.5
        self.poke = 0.0
        self.inspect = 1.0
        self.modify = 0.0
        self.mapping = 0.0
        self.steps = {"continue": 3, "next": 3, "stepIn": 3, "stepOut": 1.5}
        self.single = 0.3
        self.conditions = 0.3
        self.max_stops = 10
        self.change_bps = 0.25
        self.no_wait = 0.2
        self.small_pipes = 0.3
        self.short = 0.4
        self.late_bp = 0.3
        self.connect_timeout = 600.0
        self.debug_log = 0.1
        self.stale = 0.15
        self.pipeline = 0.2
        self.side = 0.25  # share of stops with a resume that is not for the stopped thread
        self.aim = 0.0  # share of runs that end while the playbook stands still at a drawn place
        self.odd = 0.1  # share of poked requests nobody should send
        for k, v in kw.items():
            assert hasattr(self, k), k
            setattr(self, k, v)


# what the main thread of a playbook does, for what happens while it stands still
AIMED = ["include.load", "task.vars", "task.start", "play.start", "meta.start", "play.end"]


class BpSpec(t.NamedTuple):
    line: int
    cond: str | None


CONDS: list[tuple[str, t.Callable[[str], bool]]] = [
    ("inventory_hostname == 'h1'", lambda h: h == "h1"),
    ("1 == 2", lambda h: False),
    ("true", lambda h: True),
    ("nope_undefined == 3", lambda h: False),
    ("probe_h == 'ph2'", lambda h: h == "h2"),
    ("inventory_hostname in groups['all']", lambda h: True),
    ("'x' is no_such_test", lambda h: False),
    ("1 // 0 == 1", lambda h: False),
    ("probe_h == 'p' + inventory_hostname", lambda h: True),
]
COND_FN = dict(CONDS)


class Stop:
    def __init__(self, ev: dict[str, t.Any], idx: int) -> None:
        self.ev = ev
        self.idx = idx
        self.n = ev["_n"]
        self.tid = ev["body"].get("threadId")
        self.reason = ev["body"].get("reason")
        self.frames: list[dict[str, t.Any]] | None = None
        self.frames_n = -1
        self.host: str | None = None
        self.resume: tuple[str, int, bool] | None = None  # command, n of send, single
        self.resume_tid: int | None = None
        self.resume_args: dict[str, t.Any] = {}
        self.scopes: list[dict[str, t.Any]] | None = None
        self.vars: dict[str, list[dict[str, t.Any]]] = {}
        self.evals: list[tuple[str, dict[str, t.Any] | None]] = []
        self.mods: list[dict[str, t.Any]] = []
        self.threads: list[dict[str, t.Any]] | None = None
        self.stale: list[tuple[str, dict[str, t.Any] | None]] = []
        self.old_refs: list[tuple[int, Stop, int, dict[str, t.Any] | None]] = []


def draw_policy(ch: Chooser, prof: Profile, pol: Policy) -> None:
    lvl = ch.weighted("policy", prof.noise)
    if lvl:
        pol.p_line = [0, 0.002, 0.01, 0.03, 0.004][lvl]
        pol.p_sys = [0, 0.02, 0.06, 0.15, 0.03][lvl]
        pol.p_pick = [0, 0.05, 0.2, 0.4, 0.1][lvl]
        pol.pct = lvl == 4
        pol.kind_weights = [0, 6, 2, 1, 0, 0, [0, 2, 6, 1][ch.decide("policy", 4)]]
        if ch.flip("policy", prof.stall):
            pol.kind_weights[4] = 0.5
            pol.kind_weights[5] = 0.2 if ch.flip("policy", 0.5) else 0


class Session:
    def __init__(self, ch: Chooser, base: str, slot: str, dump: bytes, prof: Profile, verbose: bool = False) -> None:
        self.ch = ch
        self.prof = prof
        self.env = E.Env(ch, base, slot, dump, verbose)
        self.sim = self.env.sim
        self.shape = pbgen.Shape(**prof.shape)
        self.pb = pbgen.generate(ch, self.env.pb, self.shape)
        # drawn parameters
        draw_policy(ch, prof, self.sim.policy)
        self.mode = self._key("cfg", prof.modes)
        self.end = self._key("cfg", prof.ends)
        if self.end == "reset":
            self.mode = "attach_tcp"
        if ch.flip("cfg", prof.small_pipes):
            self.env.stdin_cap = [4096, 512, 64][ch.decide("cfg", 3)]
            self.env.stdout_cap = [4096, 512, 64][ch.decide("cfg", 3)]
        np = self.env.net.policy
        if ch.flip("cfg", prof.short):
            np.p_short_read = [0.02, 0.2, 0.6][ch.decide("cfg", 3)]
            np.p_short_write = [0.02, 0.2, 0.6][ch.decide("cfg", 3)]
            self.env.p_stdin_short = [0.05, 0.3][ch.decide("cfg", 2)]
            np.capacity = [200_000, 4096, 600][ch.decide("cfg", 3)]
        if self.mode == "attach_tcp":
            np.latency = [0.0, 0.001, 0.05, 0.4][ch.decide("cfg", 4)]
            np.jitter = np.latency * [0.0, 0.5, 2][ch.decide("cfg", 3)]
        self.env.arun.p_long = [0.3, 0.0, 0.8][ch.decide("cfg", 3)]
        self.mapped = ch.flip("cfg", prof.mapping)
        self.no_wait = self.mode != "launch" and ch.flip("cfg", prof.no_wait)
        self.debug_log = ch.flip("cfg", prof.debug_log)
        self.mappings: list[dict[str, str]] = []
        if self.mapped:
            self.mappings = [{"localRoot": "/client/ws", "remoteRoot": self.env.pb}]
            k = ch.decide("cfg", 9)
            if k == 1:
                self.mappings.append({"localRoot": "/client", "remoteRoot": "/elsewhere"})
            elif k == 4:
                # each looks like it could go on from the other
                self.mappings.append({"localRoot": self.env.pb, "remoteRoot": "/elsewhere"})
            elif k == 5:
                self.mappings.append({"localRoot": "/third", "remoteRoot": "/client/ws"})
            elif k == 6:
                some = sorted(self.pb.files)
                self.mappings.insert(0, {"localRoot": "/client/one.yml", "remoteRoot": some[ch.decide("cfg", len(some))]})
            elif k == 7:
                # everything but one is where the client has it
                some = sorted(self.pb.files)
                self.mappings = [{"localRoot": "/client/one.yml", "remoteRoot": some[ch.decide("cfg", len(some))]}]
            elif k == 8:
                # both ends look alike
                self.mappings = [{"localRoot": "/client" + self.env.pb, "remoteRoot": self.env.pb}]
            elif k == 2:
                self.mappings.insert(0, {"localRoot": "/other", "remoteRoot": "/elsewhere"})
            elif k == 3:
                self.mappings = [{"localRoot": "/client/ws/", "remoteRoot": self.env.pb + "/"}]
        # observations
        self.stops: list[Stop] = []
        self.bp_versions: dict[str, list[tuple[int, list[BpSpec]]]] = {}
        self.filter_versions: list[tuple[int, list[str]]] = []
        self.mods: list[dict[str, t.Any]] = []
        self.resumes: list[tuple[int, str, int, bool, Stop]] = []
        self.tid_name: dict[int, str] = {}
        self.over = False
        self.end_fired = -1  # history index at which the end plan took place
        self.end_step = -1
        self.ender_q: list[kernel.SimThread] = []
        self.send_lock = sync.SimLock()
        self.launch_seq = 0
        self.started_ok = False
        self.config_done_n = -1
        self.terminate_seq = 0
        self.disconnect_seq = 0
        self.ans_proc: kernel.SimProcess | None = None
        self.term_proc: kernel.SimProcess | None = None
        self.client_done = False
        self.base_rc = 0
        self.base_hist: list[Event] = []
        self.base_display: list[str] = []
        self.result = ""
        self.trigger = ""
        self.side_seqs: dict[int, int] = {}  # seq -> thread it was for
        self.ref_log: list[tuple[int, Stop]] = []
        self.poke_log: list[tuple[int, str]] = []
        self.stuck_at = ""

    def _key(self, stream: str, w: dict[str, float]) -> str:
        ks = list(w)
        return ks[self.ch.weighted(stream, list(w.values()))]

    def cpath(self, path: str) -> str:
        for m in self.mappings:
            if path.startswith(m["remoteRoot"]):
                return m["localRoot"] + path[len(m["remoteRoot"]):]
        return path

    # -------------------------------------------------------------------- run

    def run(self, baseline: bool = True) -> str:
        if baseline:
            self.base_rc, self.base_hist, self.base_display = self.env.baseline([self.pb.main, *self.pb.args])
        args = []
        if self.debug_log:
            args = ["--log-file", os.path.join(self.env.root, "da.log"), "--log-level", "debug"]
        self.da, self.c = self.env.start_da(args)
        self.c.utf8 = self.ch.flip("enc", 0.5)
        if self.mode != "launch":
            self._start_listener()
        self.sim.spawn("client", self._main, client=True)
        if self.end != "natural":
            self._plan_end()
            self.sim.spawn("ender", self._ender, client=True)
        if self.prof.poke and self.ch.flip("cfg", self.prof.poke):
            self.sim.spawn("poker", self._poker, client=True)
        self.result = self.sim.run(60)
        if self.result in ("wall", "harness"):
            raise E.HarnessError(self.sim.harness_error)
        for ev in self.sim.history:
            if ev.kind == "proc.uncaught" and ev.data["proc"] in CLIENT_PROCS:
                proc = next(p for p in self.sim.procs if p.name == ev.data["proc"])
                raise E.HarnessError(f"the simulated {proc.name} failed: {proc.stderr_text.getvalue()}")
        return self.result

    def send(self, command: str, arguments: dict[str, t.Any] | None = None) -> int:
        """Numbers and writes one request; client threads take turns."""
        with self.send_lock:
            m = self.c.make(command, arguments)
            return self.c.send_msg(m)

    def respond(self, req: dict[str, t.Any], body: dict[str, t.Any], **kw: t.Any) -> None:
        with self.send_lock:
            self.c.respond(req, body, **kw)

    def call(self, command: str, arguments: dict[str, t.Any] | None = None) -> dict[str, t.Any] | None:
        seq = self.send(command, arguments)
        return self.c.wait_resp(seq, BIG)

    def _start_listener(self) -> None:
        addr = {"attach_pid": "uds://", "attach_uds": "uds://" + os.path.join(self.env.tmp, "lsock"), "attach_tcp": "tcp://"}[self.mode]
        args = ["listen", "--addr", addr]
        if self.no_wait:
            args.append("--no-wait")
        if self.debug_log:
            args += ["--log-file", os.path.join(self.env.root, "ans.log"), "--log-level", "debug"]
        self.ans_proc = self.env.start_ansibug([*args, self.pb.main, *self.pb.args])

    # -------------------------------------------------------------- end plan

    def _plan_end(self) -> None:
        ch = self.ch
        aimed = ch.flip("end", self.prof.aim)
        k = 0 if aimed else ch.decide("end", 3)
        sim = self.sim
        if k == 0:
            kinds = ["stopped", "task.start", "play.end", "play.start", "task.end", "initialized", "configurationDone",
                     "playbook.start", "resume", "proc.start", "response", "thread", "terminated", "meta.start", "task.vars", "include.load"]
            kind = AIMED[ch.weighted("end", [5, 1, 1, 2, 1, 1])] if aimed else kinds[ch.decide("end", len(kinds))]
            nth = 1 + ch.decide("end", [6, 8, 3, 3, 8, 1, 1, 1, 4, 3, 12, 6, 1, 4, 8, 4][kinds.index(kind)])
            after = [0, 1, 3, 10, 40, 150, 600][ch.decide("end", 7)]
            aim = aimed or ch.flip("end", 0.5) and kind in AIMED
            self.trigger = f"{nth}. {kind} +{after}{' held' if aim else ''}"
            seen = [0]
            if aim:
                after = self._aim_lines("end")

            def watch(ev: Event) -> None:
                hit = False
                if ev.kind in ("task.start", "task.end", "play.end", "play.start", "playbook.start", "meta.start", "task.vars", "include.load"):
                    hit = ev.kind == kind
                elif ev.kind == "proc.start":
                    hit = kind == "proc.start" and ev.data["proc"] in ("ans", "terminal", "cleanup")
                elif ev.kind == "c.recv":
                    m = ev.data["msg"]
                    hit = m.get("event") == kind or (kind == "response" and m.get("type") == "response")
                elif ev.kind == "c.send":
                    cmd = ev.data["msg"]["command"]
                    hit = cmd == kind or (kind == "resume" and cmd in ("continue", "next", "stepIn", "stepOut"))
                if hit:
                    seen[0] += 1
                    if seen[0] == nth:
                        if aim and ev.who == "ans/main" and sim.current is not None:
                            # the playbook stands still there while it happens
                            sim.aim(sim.current, after, 1.0, self._fire)
                        else:
                            sim.at_step(sim.steps + after, self._fire)

            sim.watchers.append(watch)
        else:
            # mostly a place in the middle of the session
            step = ch.decide("end", 12000, lambda r: int(r.triangular(0, 12000, 4000)) if r.random() < 0.8 else r.randrange(12000))
            self.trigger = f"step {step}"
            sim.at_step(step, self._fire)

    def _aim_lines(self, stream: str) -> int:
        return self.ch.decide(stream, [4, 40, 200, 1000][self.ch.decide(stream, 4)])

    def _fire(self) -> None:
        if self.end_fired >= 0 or self.over:
            return
        sim = self.sim
        ans = [p for p in self.env.playbooks if p.alive]
        end = self.end
        if end in ("kill_ans", "sigint_ans") and not ans:
            return
        ev = sim.log("end.fire", end=end)
        self.end_fired = ev.n
        self.end_step = sim.steps
        if end == "kill_da":
            sim.fault("kill_da")
            sim.kill(self.da)
        elif end == "kill_ans":
            sim.fault("kill_ans")
            sim.kill(ans[0])
        elif end == "sigint_ans":
            sim.fault("sigint_ans")
            sim.interrupt(ans[0])
        elif end == "reset":
            sim.fault("connection_reset")
            self._reset()
        else:
            self.over = True
        sim.wake_all(self.ender_q)
        sim.wake_all(self.c.q)

    def _reset(self) -> None:
        for k in list(self.env.net.all):
            if k.state == "connected" and k.peer is not None:
                k.reset()

    def _ender(self) -> None:
        sim, c = self.sim, self.c
        while self.end_fired < 0:
            if self.client_done:
                return
            sim.wait_on(self.ender_q, "ender")
        end = self.end
        if end in ("kill_da", "kill_ans", "sigint_ans", "reset"):
            return
        if end in ("disconnect", "disconnect_term"):
            args: dict[str, t.Any] | None = {"restart": False, "terminateDebuggee": end == "disconnect_term"}
            if end == "disconnect" and self.ch.decide("end", 3) == 1:
                args = None
            self.disconnect_seq = self.send("disconnect", args)
            c.wait_resp(self.disconnect_seq, BIG)
            self._client_exit()
        elif end == "terminate":
            self.terminate_seq = self.send("terminate", {"restart": False})
            tseq = self.terminate_seq

            def settled() -> bool:
                r = c.resp(tseq)
                return c.find_event("terminated") is not None or (r is not None and not r.get("success"))

            c.wait(settled, BIG)
            refused = c.find_event("terminated") is None
            self.disconnect_seq = self.send("disconnect", {"terminateDebuggee": True} if refused else None)
            c.wait_resp(self.disconnect_seq, BIG)
            self._client_exit()
        elif end == "vanish":
            sim.fault("client_vanish")
            c.close()
        elif end == "vanish_stdin":
            sim.fault("client_stdin_eof")
            c.gone = True
            c.out.close_writer()
            c.wait(lambda: False, BIG)
            c.close()
        elif end == "vanish_stdout":
            sim.fault("client_stdout_epipe")
            c.inp.close_reader()
            sim.sleep([0.01, 1.0, 30.0][self.ch.decide("end", 3)])
            c.close()
        else:
            raise AssertionError(end)
        self.client_done = True

    def _client_exit(self) -> None:
        """After the disconnect response a client waits a little, or not at all."""
        if self.ch.decide("end", 2) == 0:
            self.c.wait(lambda: False, BIG)
        self.c.close()

    # ------------------------------------------------------------ client main

    def _main(self) -> None:
        try:
            self._script()
        finally:
            self.sim.wake_all(self.ender_q)

    def _script(self) -> None:
        c, ch, sim = self.c, self.ch, self.sim
        self.call("initialize", {"adapterID": "ansibug", "clientID": "sim"})
        if c.eof or self.over:
            return self._finish()
        if not self._connect():
            return self._finish()
        self.started_ok = True
        c.wait(lambda: c.find_event("initialized") is not None or c.find_event("terminated") is not None or self.over, BIG)
        if c.find_event("initialized") is None:
            return self._finish()
        self._configure()
        if self.over or c.eof:
            return self._finish()
        seq = self.send("configurationDone")
        self.config_done_n = c.sent[seq]["_n"]
        if not ch.flip("cl", self.prof.pipeline):
            c.wait_resp(seq, BIG)
        handled = 0
        while True:
            def stops() -> list[dict[str, t.Any]]:
                return [e for e in c.events if e["event"] == "stopped"]

            c.wait(lambda: len(stops()) > handled or c.find_event("terminated") is not None or self.over, BIG)
            if self.over or c.eof or c.find_event("terminated") is not None:
                break
            st = Stop(stops()[handled], handled)
            handled += 1
            self.stops.append(st)
            self._at_stop(st)
            if self.over or c.eof:
                break
        self._finish()

    def _finish(self) -> None:
        c = self.c
        if self.over:
            return  # the ender takes it from here
        if self.end_fired >= 0 and self.end in ("kill_ans", "sigint_ans", "reset", "kill_da") or self.end == "natural" or self.end_fired < 0:
            if not c.eof:
                self.over = True
                self.disconnect_seq = self.send("disconnect", {"restart": False, "terminateDebuggee": False} if self.ch.decide("end", 2) else None)
                c.wait_resp(self.disconnect_seq, BIG)
                self._client_exit()
            else:
                c.close()
        self.client_done = True

    def _connect(self) -> bool:
        c, ch, sim = self.c, self.ch, self.sim
        if self.mode == "launch":
            args: dict[str, t.Any] = {"playbook": self.pb.main, "args": self.pb.args, "connectTimeout": self.prof.connect_timeout}
            if self.mappings:
                args["pathMappings"] = self.mappings
            if self.debug_log:
                args["logFile"] = os.path.join(self.env.root, "ans.log")
                args["logLevel"] = "debug"
            self.launch_seq = self.send("launch", args)

            def rit() -> dict[str, t.Any] | None:
                for m in c.msgs:
                    if m.get("type") == "request" and m.get("command") == "runInTerminal":
                        return m
                return None

            c.wait(lambda: rit() is not None or self.launch_seq in c.responses or self.over, BIG)
            req = rit()
            if req is None or self.over:
                return False
            order = ch.decide("cl", 3)
            delay = [0.0, 0.2, 2.0][ch.decide("cl", 3)]
            if order == 1:
                self.respond(req, {"shellProcessId": 77})
            self.term_proc = self.env.terminal(req, delay)
            if order == 2:
                sim.sleep(0.5)
            if order != 1:
                self.respond(req, {"processId": 77})
        else:
            info = self._find_listener()
            if info is None:
                return False
            args = {"connectTimeout": self.prof.connect_timeout}
            if self.mode == "attach_pid":
                args["processId"] = info["pid"]
            else:
                args["address"] = info["address"]
            if self.mappings:
                args["pathMappings"] = self.mappings
            self.launch_seq = self.send("attach", args)
        c.wait(lambda: self.launch_seq in c.responses or self.over, BIG)
        r = c.resp(self.launch_seq)
        return bool(r and r.get("success")) and not self.over

    def _find_listener(self) -> dict[str, t.Any] | None:
        """Looks for the advertised process the way an editor does."""
        p = t.cast(kernel.SimProcess, self.ans_proc)
        while p.alive and not self.over:
            path = os.path.join(self.env.tmp, f"ansibug-pid-{p.pid}")
            try:
                with open(path) as f:
                    d = json.loads(f.read())
                return t.cast(dict[str, t.Any], d)
            except (OSError, ValueError):
                pass
            self.sim.wait_on(self.c.q, "poll", 0.05)
        return None

    # ---------------------------------------------------------- configuration

    def _draw_bps(self, path: str, density: float) -> list[BpSpec]:
        ch = self.ch
        f = self.pb.files[path]
        out = []
        for line in sorted(f.regs):
            if ch.flip("bp", density):
                cond = None
                if ch.flip("bp", self.prof.conditions):
                    cond = CONDS[ch.decide("bp", len(CONDS))][0]
                off = [0, 0, 0, 1, 2, -1][ch.decide("bp", 6)]
                out.append(BpSpec(max(1, line + off), cond))
        if ch.flip("bp", 0.1):
            out.append(BpSpec(1 + ch.decide("bp", 60), None))
        return out

    def set_bps(self, path: str, bps: list[BpSpec], wait: bool = True) -> int:
        args: dict[str, t.Any] = {
            "source": {"name": os.path.basename(path), "path": self.cpath(path)},
            "breakpoints": [{"line": b.line, **({"condition": b.cond} if b.cond else {})} for b in bps],
            "sourceModified": False,
        }
        with self.send_lock:
            m = self.c.make("setBreakpoints", args)
            self.bp_versions.setdefault(path, []).append((m["seq"], bps))
            seq = self.c.send_msg(m)
        if wait:
            self.c.wait_resp(seq, BIG)
        return seq

    def set_filters(self, names: list[str], wait: bool = True) -> int:
        with self.send_lock:
            m = self.c.make("setExceptionBreakpoints", {"filters": names})
            self.filter_versions.append((m["seq"], names))
            seq = self.c.send_msg(m)
        if wait:
            self.c.wait_resp(seq, BIG)
        return seq

    def _draw_filters(self) -> list[str]:
        m = self.ch.decide("bp", 8)
        return [n for i, n in enumerate(["on_error", "on_unreachable", "on_skipped"]) if m >> i & 1]

    def _configure(self) -> None:
        ch = self.ch
        pipeline = ch.flip("cl", self.prof.pipeline)
        for path in sorted(self.pb.files):
            if self.over or self.c.eof:
                return
            if ch.flip("bp", 0.85):
                bps = self._draw_bps(path, self.prof.p_bp)
                if bps or ch.flip("bp", 0.2):
                    self.set_bps(path, bps, wait=not pipeline)
        if ch.flip("bp", self.prof.filters) and not self.over:
            self.set_filters(self._draw_filters(), wait=not pipeline)

    # -------------------------------------------------------------- at a stop

    def _at_stop(self, st: Stop) -> None:
        c, ch, sim = self.c, self.ch, self.sim
        drain = st.idx >= self.prof.max_stops
        if self.prof.inspect:
            r = self.call("threads")
            if r and r.get("success"):
                st.threads = r["body"]["threads"]
                for th in st.threads or []:
                    self.tid_name[th["id"]] = th["name"]
                st.host = self.tid_name.get(st.tid)
            if self.over or c.eof:
                return
            r = self.call("stackTrace", {"threadId": st.tid})
            if r and r.get("success"):
                st.frames = r["body"]["stackFrames"]
                st.frames_n = r["_n"]
            if self.over or c.eof:
                return
            n = ch.weighted("cl", [4, 2, 2, 1, 1])
            for _ in range(n):
                self._inspect(st)
                if self.over or c.eof:
                    return
            if self.prof.modify and ch.flip("cl", self.prof.modify):
                self._modify(st)
            if self.over or c.eof:
                return
        if ch.flip("cl", 0.1):
            sim.sleep([0.1, 1.0, 20.0][ch.decide("cl", 3)])
            if self.over or c.eof:
                return
        if drain:
            for path in sorted(self.bp_versions):
                if self.bp_versions[path][-1][1] and not self.over:
                    self.set_bps(path, [])
            if self.filter_versions and self.filter_versions[-1][1] and not self.over:
                self.set_filters([])
            self._resume(st, "continue", False)
            return
        if ch.flip("cl", self.prof.change_bps):
            self._change_bps(wait=not ch.flip("cl", 0.3))
            if self.over or c.eof:
                return
        if self.prof.side and ch.flip("cl", self.prof.side):
            self._side(st)
            if self.over or c.eof:
                return
        self._resume(st, self._key("cl", self.prof.steps), ch.flip("cl", self.prof.single))

    def _others(self, st: Stop) -> list[int]:
        return [th["id"] for th in st.threads or [] if th["id"] not in (1, st.tid)]

    def _side(self, st: Stop) -> None:
        """A resume request for a thread that is not stopped, or does not exist."""
        ch = self.ch
        others = self._others(st)
        with self.send_lock:
            if self.over:
                return
            if others and ch.decide("cl", 3):
                tid = others[ch.decide("cl", len(others))]
                m = self.c.make("continue", {"threadId": tid, "singleThread": True})
            else:
                tid = 0
                cmd = ["continue", "next", "stepIn", "stepOut"][ch.decide("cl", 4)]
                m = self.c.make(cmd, {"threadId": 910_000, **({"singleThread": True} if cmd == "continue" else {})})
            self.side_seqs[m["seq"]] = tid
            seq = self.c.send_msg(m)
        r = self.c.wait_resp(seq, BIG)
        if not tid:
            st.stale.append((m["command"], r))
        if ch.flip("cl", 0.5) and not self.over:
            self.c.wait(lambda: self.over, [0.001, 0.05, 1.0][ch.decide("cl", 3)])

    def _change_bps(self, wait: bool) -> None:
        ch = self.ch
        if ch.flip("cl", 0.3):
            self.set_filters(self._draw_filters(), wait=wait)
            return
        paths = sorted(self.pb.files)
        path = paths[ch.decide("cl", len(paths))]
        prev = self.bp_versions.get(path)
        k = ch.decide("cl", 3)
        if k == 1 and prev and prev[-1][1]:
            # keep everything, add or drop one
            bps = list(prev[-1][1])
            lines = sorted(self.pb.files[path].regs)
            if ch.decide("cl", 2) or not lines:
                bps.pop(ch.decide("cl", len(bps)))
            else:
                bps.append(BpSpec(lines[ch.decide("cl", len(lines))], None))
        elif k == 2 and prev:
            bps = list(prev[-1][1])
        else:
            bps = self._draw_bps(path, self.prof.p_bp)
        self.set_bps(path, bps, wait=wait)

    def _resume(self, st: Stop, cmd: str, single: bool) -> None:
        with self.send_lock:
            if self.over:
                return
            args: dict[str, t.Any] = {"threadId": st.tid}
            if cmd == "continue":
                if single:
                    args["singleThread"] = True
                elif self.ch.flip("cl", 0.6):
                    args["singleThread"] = False
                    others = self._others(st)
                    if others and self.prof.side and self.ch.flip("cl", 0.15):
                        args["threadId"] = others[self.ch.decide("cl", len(others))]  # everything goes on
            m = self.c.make(cmd, args)
            seq = self.c.send_msg(m)
        st.resume = (cmd, m["_n"], single)
        st.resume_args = args
        st.resume_tid = seq
        if not self.ch.flip("cl", self.prof.pipeline):
            self.c.wait_resp(seq, BIG)

    def _scopes(self, st: Stop) -> list[dict[str, t.Any]] | None:
        if st.scopes is None and st.frames:
            r = self.call("scopes", {"frameId": st.frames[0]["id"]})
            if r and r.get("success"):
                st.scopes = r["body"]["scopes"]
                for s in st.scopes or []:
                    self.ref_log.append((s["variablesReference"], st))
        return st.scopes

    def _vars(self, st: Stop, name: str, ref: int) -> list[dict[str, t.Any]] | None:
        r = self.call("variables", {"variablesReference": ref})
        if r and r.get("success"):
            st.vars[name] = r["body"]["variables"]
            for v in st.vars[name]:
                if v.get("variablesReference"):
                    self.ref_log.append((v["variablesReference"], st))
            return st.vars[name]
        if r is not None:
            st.stale.append(("fresh-ref-refused", r))
        return None

    def _inspect(self, st: Stop) -> None:
        ch = self.ch
        k = ch.weighted("cl", [2, 3, 2, 2, 1.5 if self.prof.stale else 0, 0.8])
        if k == 0:
            self._scopes(st)
        elif k == 1:
            sc = self._scopes(st)
            if sc:
                s = sc[ch.decide("cl", max(1, len(sc) - 1))]
                vs = self._vars(st, s["name"], s["variablesReference"])
                if vs and ch.flip("cl", 0.3):
                    deep = [v for v in vs if v.get("variablesReference") and v["name"] not in ("hostvars", "vars")]
                    if deep:
                        v = deep[ch.decide("cl", len(deep))]
                        self._vars(st, f"{s['name']}/{v['name']}", v["variablesReference"])
        elif k == 2:
            e = ["inventory_hostname", "probe_h", "probe_p", "1 + 1", "nope_undefined", "probe_h | upper", "1 +"][ch.decide("cl", 7)]
            if st.frames:
                ctx = ["repl", "watch", "clipboard"][ch.decide("cl", 3)]
                r = self.call("evaluate", {"expression": e, "frameId": st.frames[0]["id"], "context": ctx})
                st.evals.append((e, r))
        elif k == 3:
            fr = st.frames
            if fr and len(fr) > 1:
                f = fr[ch.decide("cl", len(fr))]
                r = self.call("scopes", {"frameId": f["id"]})
                if r is not None and not r.get("success"):
                    st.stale.append(("fresh-frame-refused", r))
            else:
                self._scopes(st)
        elif k == 5:
            self._refused(st)
        else:
            old = [x for x in self.ref_log if x[1] is not st]
            if old and ch.decide("cl", 2):
                if st.frames and ch.decide("cl", 2):
                    # one of an include that was left
                    now = {f["id"] for f in st.frames}
                    outer = {f["id"] for o in self.stops for f in (o.frames or [])[1:]} - now
                    old = [x for x in old if x[1].frames and x[1].frames[0]["id"] in outer] or old
                ref, whose = old[ch.decide("cl", len(old))]
                seq = self.send("variables", {"variablesReference": ref})
                r = self.c.wait_resp(seq, BIG)
                st.old_refs.append((ref, whose, self.c.sent[seq]["_n"], r))
                return
            kind = ["variables", "scopes", "stackTrace", "setVariable"][ch.decide("cl", 4)]
            bad = 900_000 + ch.decide("cl", 5)
            r = self.call(kind, {
                "variables": {"variablesReference": bad}, "scopes": {"frameId": bad}, "stackTrace": {"threadId": bad},
                "setVariable": {"variablesReference": bad, "name": "x", "value": "1"},
            }[kind])
            st.stale.append((kind, r))
            if st.scopes and kind == "setVariable" and not self.over and not self.c.eof:
                self._refused(st)

    def _refused(self, st: Stop) -> None:
        """What is meant is there, but there is no such value."""
        ch = self.ch
        sc = self._scopes(st)
        if not sc or self.over or self.c.eof:
            return
        ref = sc[ch.decide("cl", len(sc))]["variablesReference"]
        val = ["1 +", "{{", "'x' is nope", "1 // 0"][ch.decide("cl", 4)]
        st.stale.append(("setVariable", self.call("setVariable", {"variablesReference": ref, "name": "probe_z", "value": val})))

    def _child(self, ref: int, keys: list[str]) -> tuple[int, str] | None:
        """The reference below ref that keys lead to, and what the first of them shows."""
        shown = ""
        for i, name in enumerate(keys):
            r = self.call("variables", {"variablesReference": ref})
            if not r or not r.get("success"):
                return None
            v = next((v for v in r["body"]["variables"] if v["name"] == name), None)
            if v is None or not v.get("variablesReference"):
                return None
            ref = v["variablesReference"]
            if i == 0:
                shown = v["value"]
        return ref, shown

    def _modify(self, st: Stop) -> None:
        """One change; mods record what was asked and what was answered."""
        ch = self.ch
        sc = self._scopes(st)
        if not sc or not st.frames or self.over or self.c.eof:
            return
        refs = {s["name"]: s["variablesReference"] for s in sc}
        n = len(self.mods)
        val = [f"'v{n}'", f"{1000 + n}", f"['l{n}', 2]", f"{{'k': 'd{n}'}}", "probe_h"][ch.decide("cl", 5)]
        kind = ["opt", "host", "task", "opt_repl", "host_repl", "opt_remove", "host_old", "task_deep", "host_deep", "opt_deep"][ch.decide("cl", 10)]
        if kind == "opt_deep" and (st.frames[0]["name"].rsplit(" : ", 1)[-1] not in self.pb.nested or
                                   any(m["name"] == "msg" and m["kind"] != "opt_deep" for m in st.mods)):
            kind = "opt"
        mod: dict[str, t.Any] = {"kind": kind, "value": val, "stop": st, "name": ""}
        where = {"opt": "Module Options", "opt_repl": "Module Options", "opt_remove": "Module Options", "opt_deep": "Module Options",
                 "host": "Host Variables", "host_repl": "Host Variables", "host_old": "Host Variables", "host_deep": "Host Variables",
                 "task": "Task Variables", "task_deep": "Task Variables"}[kind]
        mod["name"] = "msg" if kind.startswith("opt") else "probe_q" if kind.endswith("_deep") else f"probe_m{n}"
        fid = st.frames[0]["id"]
        if kind == "host_old":
            mod["name"] = ["probe_i", "probe_g", "probe_p", "probe_q", "probe_f"][ch.decide("cl", 5)]
            if ch.decide("cl", 2):
                kind = mod["kind"] = "host_repl"
        if mod["name"] == "probe_q" and any(m["name"] == "probe_q" and m["kind"] != kind for m in st.mods):
            return  # what it would start from is another question
        if kind in ("opt", "host", "task", "host_old"):
            r = self.call("setVariable", {"variablesReference": refs[where], "name": mod["name"], "value": val})
        elif kind.endswith("_deep"):
            keys, leaf = [([], "k" if kind != "opt_deep" else "a"), ([], "new"), (["k" if kind != "opt_deep" else "l"], "0")][ch.decide("cl", 3)]
            found = self._child(refs[where], [mod["name"], *keys])
            if found is None:
                return
            if not keys and found[1].startswith("["):
                leaf = "0"
            mod["path"] = [*keys, leaf]
            mod["base"] = found[1]
            r = self.call("setVariable", {"variablesReference": found[0], "name": leaf, "value": val})
            if r and r.get("success") and ch.flip("cl", 0.5):
                r4 = self.call("variables", {"variablesReference": found[0]})
                if r4 and r4.get("success"):
                    mod["same"] = {v["name"]: v["value"] for v in r4["body"]["variables"]}.get(leaf)
        else:
            cmd = {"opt_repl": ["so", "set_option"], "host_repl": ["sh", "set_hostvar"], "opt_remove": ["ro", "remove_option"]}[kind]
            e = f"!{cmd[ch.decide('cl', 2)]} {mod['name']}"
            if kind != "opt_remove":
                e += f" {val}"
            r = self.call("evaluate", {"expression": e, "frameId": fid, "context": "repl"})
        mod["resp"] = r
        if not r or not r.get("success"):
            mod["failed"] = True
        self.mods.append(mod)
        st.mods.append(mod)
        if self.over or self.c.eof or mod.get("failed"):
            return
        if kind in ("task", "host_repl", "task_deep") and ch.flip("cl", 0.3):
            mod["ev"] = self.call("evaluate", {"expression": mod["name"], "frameId": fid, "context": "watch"})
        if ch.flip("cl", 0.5):
            # read it back through fresh references
            r2 = self.call("scopes", {"frameId": fid})
            if r2 and r2.get("success"):
                ref = [s["variablesReference"] for s in r2["body"]["scopes"] if s["name"] == where]
                if ref:
                    r3 = self.call("variables", {"variablesReference": ref[0]})
                    if r3 and r3.get("success"):
                        mod["readback"] = {v["name"]: v["value"] for v in r3["body"]["variables"]}

    # ------------------------------------------------------------------ poker

    def _odd(self) -> int:
        """A request that can only be refused, or that says nothing."""
        ch = self.ch
        k = ch.decide("poke", 5)
        if k == 0:
            return self.send(["pause", "goto", "source", "noSuchCommand", "restart", "modules"][ch.decide("poke", 6)], [{"threadId": 1}, {}, None][ch.decide("poke", 3)])
        if k == 1:
            cmd = ["next", "stepIn", "stepOut", "continue"][ch.decide("poke", 4)]
            with self.send_lock:
                m = self.c.make(cmd, {"threadId": 910_001, **({"singleThread": True} if cmd == "continue" else {})})
                self.side_seqs[m["seq"]] = 0
                return self.c.send_msg(m)
        if k == 2:
            return self.send(["setBreakpoints", "variables", "stackTrace", "scopes", "evaluate", "setVariable"][ch.decide("poke", 6)],
                             [{}, None, {"threadId": "x", "frameId": [], "variablesReference": None, "source": 1}][ch.decide("poke", 3)])
        if k == 3:
            return self.send("configurationDone", [{}, None][ch.decide("poke", 2)]) if self.config_done_n >= 0 else self.send("threads", {})
        return self.send("setVariable", {"variablesReference": 1 + ch.decide("poke", 40), "name": "probe_z", "value": ["1 +", "nope_undefined", "{{", "'x' is nope"][ch.decide("poke", 4)]})

    def _poker(self) -> None:
        """A second source of requests, unaware of what the session is doing."""
        c, ch, sim = self.c, self.ch, self.sim
        c.wait(lambda: c.find_event("initialized") is not None or self.over or c.find_event("terminated") is not None, BIG)
        n = 4 + ch.decide("poke", 14)
        for _ in range(n):
            k = ch.decide("poke", 6)
            if k > 3:
                # while the playbook stands still somewhere
                hold = [0]
                kind = AIMED[ch.decide("poke", len(AIMED))]
                nth = 1 + ch.decide("poke", 3)
                lines = self._aim_lines("poke")

                def held() -> None:
                    hold[0] = -1
                    sim.wake_all(c.q)

                def watch(ev: Event) -> None:
                    if ev.kind == kind and ev.who == "ans/main" and hold[0] >= 0 and sim.current is not None:
                        hold[0] += 1
                        if hold[0] == nth:
                            sim.aim(sim.current, lines, 1.0, held)

                sim.watchers.append(watch)
                c.wait(lambda: hold[0] < 0 or self.over or c.eof, 60.0)
                sim.watchers.remove(watch)
            elif k == 1:
                sim.sleep([0.002, 0.02, 0.2, 1.0][ch.decide("poke", 4)])
            elif k == 2:
                # right after the next message
                mark = len(c.msgs)
                c.wait(lambda: len(c.msgs) > mark or self.over, 2.0)
            elif k == 3:
                target = sim.steps + [1, 5, 30, 120, 400][ch.decide("poke", 5)]
                hit = [False]

                def wake() -> None:
                    hit[0] = True
                    sim.wake_all(c.q)

                sim.at_step(target, wake)
                c.wait(lambda: hit[0] or self.over, 2.0)
            if self.over or c.eof or c.find_event("terminated") is not None:
                return
            what = ch.weighted("poke", [3, 4, 2, 1, 1, 1, 20 * self.prof.odd])
            if what == 0:
                seq = self.send("threads")
            elif what == 1:
                paths = sorted(self.pb.files)
                path = paths[ch.decide("poke", len(paths))]
                prev = self.bp_versions.get(path)
                if prev and ch.decide("poke", 2):
                    seq = self.set_bps(path, list(prev[-1][1]), wait=False)
                else:
                    seq = self.set_bps(path, self._draw_bps(path, self.prof.p_bp), wait=False)
            elif what == 2:
                prevf = self.filter_versions[-1][1] if self.filter_versions else []
                seq = self.set_filters(list(prevf) if ch.decide("poke", 2) else self._draw_filters(), wait=False)
            elif what == 3:
                seq = self.send("evaluate", {"expression": "1 + 1", "context": "watch"})
            elif what == 4:
                seq = self.send("stackTrace", {"threadId": 1 + ch.decide("poke", 6)})
            elif what == 5:
                seq = self.send("variables", {"variablesReference": 1 + ch.decide("poke", 40)})
            else:
                seq = self._odd()
            self.poke_log.append((seq, str(what)))
