"""C20: launch requests with terminals, scripts and playbooks that fail or are late."""

from __future__ import annotations

import os
import typing as t

from . import kernel
from .attach import BIG, World


class Launch(World):
    KINDS = {"ok": 4, "late": 2, "rit_error": 1, "never": 1, "noresp": 1, "early": 2, "signal": 1.5, "badpb": 1, "kill_pb": 2, "kill_term": 1,
             "kill_all": 1, "disk": 2, "badargs": 1, "leave": 2, "vanish": 1.5, "tempdir": 0.7, "sysfail": 4}

    def build(self) -> None:
        ch = self.ch
        self.kind = "uds"
        self.setup_pb()
        ks = list(self.KINDS)
        self.case = ks[ch.weighted("cfg", list(self.KINDS.values()))]
        self.timeout = [5.0, 1.0, 60.0, 600.0, 0.3][ch.decide("cfg", 5)]
        if self.case in ("ok", "early", "badpb", "signal") and ch.flip("cfg", 0.15):
            self.timeout = 0.0  # as long as it takes
        self.sig = ["INT", "TERM", "HUP"][ch.decide("cfg", 3)] if self.case == "signal" else ""
        T = self.timeout
        self.resp_delay = [0.0, 0.01, 0.5, T * 0.9, T * 2][ch.weighted("cfg", [5, 2, 2, 1, 1])]
        self.resp_first = ch.flip("cfg", 0.4)  # the client answers before the script runs
        self.start_delay = [0.0, 0.05, 1.0, T * 0.5][ch.weighted("cfg", [5, 2, 1, 1])]
        if self.timeout == 0.0 and self.case == "ok":
            self.start_delay = [0.05, 8.0, 100.0, 5000.0][ch.decide("cfg", 4)]
        if self.case == "late":
            self.start_delay = T * [0.8, 0.95, 1.0, 1.05, 1.3, 4.0][ch.decide("cfg", 6)]
            self.resp_first = True
        self.env.exec_delay = [0.3, 0.0, 2.0][ch.weighted("cfg", [4, 1, 1])]
        self.tdir = ""
        self.da_args: list[str] = []
        if self.case == "tempdir" or ch.flip("cfg", 0.15):
            self.tdir = os.path.join(self.env.tmp, "t dir")
            os.makedirs(self.tdir)
            self.da_args = ["--temp-dir", self.tdir]
            if self.case == "tempdir":
                self.da_args[1] += "/gone"
        fs = self.env.world.fs
        if self.case == "disk":
            if ch.decide("cfg", 2):
                fs.enospc_after = [0, 1, 200, ch.decide("cfg", 1400)][ch.decide("cfg", 4)]
            else:
                fs.torn = 0.9
        if self.case == "sysfail":
            self.draw_sysfail(["da", "ans", "cleanup", "terminal"])
        self.cfg.update(case=self.case, T=T, resp=self.resp_delay, first=self.resp_first, start=self.start_delay, tdir=bool(self.tdir))
        self.t_resp = -1.0  # when the client answered runInTerminal
        self.t_conn = -1.0  # when the playbook connected to the adapter
        self.t_gone = -1.0  # when the launched script had ended
        self.t_accept = -1.0
        self.killed = False
        self.rit_seen = False
        self.sim.watchers.append(self._conn)
        self.main = self.sim.spawn("client", self._main, client=True)

    def _conn(self, ev: kernel.Event) -> None:
        now = ev.t
        if ev.kind == "net.connect" and self.t_conn < 0 and ev.who.startswith("ans/"):
            self.t_conn = now
            self.wake()
        elif ev.kind == "net.accept" and self.t_accept < 0 and ev.who.startswith("da/"):
            self.t_accept = now
            self.wake()
        elif ev.kind == "proc.exit" and ev.data.get("proc") == "terminal":
            self.t_gone = now
            self.wake()

    def _main(self) -> None:
        ch, sim = self.ch, self.sim
        pb = self.pb.main
        if self.case == "badpb":
            pb = os.path.join(self.env.pb, ["missing.yml", "broken.yml"][ch.decide("cfg", 2)])
            if pb.endswith("broken.yml"):
                with open(pb, "w") as f:
                    f.write("- hosts: [all\n")
        args: dict[str, t.Any] = {"playbook": pb, "args": list(self.pb.args), "connectTimeout": self.timeout}
        if ch.flip("cfg", 0.2):
            args["console"] = ["integratedTerminal", "externalTerminal"][ch.decide("cfg", 2)]
        if ch.flip("cfg", 0.2):
            args["cwd"] = self.env.pb
        if ch.flip("cfg", 0.2):
            args["env"] = {"A B": "c d", "GONE": None}
        if self.case == "badargs":
            bad = [("playbook", None), ("playbook", ""), ("console", "internalConsole"), ("connectTimeout", "soon"),
                   ("pathMappings", [{"localRoot": "/x"}])][ch.decide("cfg", 5)]
            args[bad[0]] = bad[1]
        a = Attempt(self.case, self.timeout, *self.env.start_da(self.da_args))
        a.proc.on_exit.append(self.wake)
        self.attempts.append(a)
        self.a = a
        if self.case in ("leave", "vanish"):
            sim.spawn("client", self._leaver, client=True)
        elif self.case.startswith("kill"):
            sim.spawn("client", self._killer, client=True)
        self.drive(a, "launch", args, self._terminal)

    def _terminal(self, req: dict[str, t.Any]) -> None:
        """What the client does about runInTerminal."""
        ch, sim, a = self.ch, self.sim, self.a
        c = a.client
        self.rit_seen = True
        self.req = req
        case = self.case
        self.wake()
        if case == "noresp":
            if ch.decide("cfg", 2):
                self._start(req)
            sim.sleep(1.0 + ch.decide("cfg", 3))
            if ch.decide("cfg", 2):
                c.send(["threads", "nonsense", "configurationDone"][ch.decide("cfg", 3)])
            a.leave = 0.0
            return
        if case == "rit_error":
            if ch.decide("cfg", 3) == 0:
                # it started it all the same
                self._start(req)
            if self.resp_delay:
                sim.sleep(self.resp_delay)
            if a.seq in c.responses:
                return
            self.t_resp = sim.now - sim.t0
            c.respond(req, {}, success=False, message="no terminal")
            return
        if not self.resp_first:
            self._start(req)
        if self.resp_delay:
            sim.sleep(self.resp_delay)
        self.t_resp = sim.now - sim.t0
        if not c.gone:
            c.respond(req, [{}, {"processId": 1, "shellProcessId": 2}][ch.decide("cfg", 2)])
        if self.resp_first:
            self._start(req)

    def _start(self, req: dict[str, t.Any]) -> None:
        if self.case == "never":
            return
        self.env.terminal(req, self.start_delay, fail_early=self.case == "early", sig=self.sig)

    def _leaver(self) -> None:
        """The client changes its mind while the adapter waits."""
        ch, sim, a = self.ch, self.sim, self.a
        c = a.client
        self.until(lambda: self.rit_seen or not a.proc.alive)
        k = ch.decide("end", 4)
        if k == 1:
            self.until(lambda: self.t_resp >= 0 or not a.proc.alive)
        elif k == 2:
            self.until(lambda: self.t_conn >= 0 or not a.proc.alive, 100.0)
        elif k == 3:
            sim.sleep([0.01, 0.3, 1.0][ch.decide("end", 3)])
        if ch.decide("end", 2):
            hit = [False]

            def fire() -> None:
                hit[0] = True
                self.wake()

            sim.at_step(sim.steps + ch.decide("end", 900), fire)
            self.until(lambda: hit[0], 2.0)
        if c.eof or c.gone:
            return
        self.left_at = sim.now - sim.t0
        if self.case == "vanish":
            sim.fault("client_vanishes")
            a.wants_resp = False
            c.close()
            return
        a.leave = 0.0
        a.disconnected = True
        sim.fault("client_disconnects")
        c.send("disconnect", [None, {"terminateDebuggee": True}, {"terminateDebuggee": False}][ch.decide("end", 3)])
        sim.wake_all(c.q)

    left_at = -1.0

    def _killer(self) -> None:
        ch, sim = self.ch, self.sim
        a = self.a
        self.until(lambda: self.rit_seen or not a.proc.alive)
        if self.case == "kill_term":
            self.until(lambda: bool(self.env.terminals) or not a.proc.alive, 5000.0)
        else:
            self.until(lambda: bool(self.env.playbooks) or not a.proc.alive, 5000.0)
        hit = [False]

        def fire() -> None:
            hit[0] = True
            self.wake()

        sim.at_step(sim.steps + ch.decide("end", [50, 400, 1500][ch.decide("end", 3)]), fire)
        self.until(lambda: hit[0], [0.2, 1.0, 10.0][ch.decide("end", 3)])
        victims = self.env.terminals if self.case == "kill_term" else self.env.playbooks
        if self.case == "kill_all":
            victims = [*self.env.terminals, *self.env.playbooks]
        for p in victims:
            if p.alive:
                sim.fault("kill_" + p.name)
                self.killed = True
                sim.kill(p)
        self.wake()

    # --------------------------------------------------------------- judging

    def judge(self) -> None:
        sim, a, T = self.sim, self.a, self.timeout or 1e9
        slack = 3.0 + sim.stalled
        case = self.case
        self.ans = self.env.playbooks[0] if self.env.playbooks else None
        left = case in ("leave", "vanish", "noresp")
        failed = self.sysfailed()
        enospc = bool(sim.faults.get("enospc"))
        if not left and case not in ("rit_error",):
            # success if and only if the playbook connected in time
            if self.t_conn >= 0 and self.t_resp >= 0 and not self.killed and self.t_conn < self.t_resp + T - slack:
                a.expect = "ok"
            elif self.t_conn < 0 or self.t_resp < 0 or self.t_conn > self.t_resp + T + slack:
                a.expect = "fail"
            else:
                a.expect = "either"
            if failed:
                a.expect = "either"
        elif case == "rit_error":
            a.expect = "fail"
        else:
            a.expect = "either"
        a.why = f"connected {self.t_conn:.2f}, answered {self.t_resp:.2f}, timeout {T}"
        self.judge_attempt("C20", a)
        self.count(f"c20.{case}.{'ok' if a.ok else 'failed' if a.resp else 'none'}")
        if a.ok and self.t_accept < 0:
            self.bad("C20", "accepted", "the launch succeeded but no playbook connected")
        if not left and a.resp is None and a.terminated_at < 0:
            self.bad("C20", "unresolved", "neither an answer nor a terminated event")
        # in bounded time
        done = [x for x in (a.resp_at, a.terminated_at) if x >= 0]
        if done and case != "vanish":
            at = min(done)
            start = self.t_resp if self.t_resp >= 0 else a.sent
            due = start + T + slack
            if case == "noresp":
                due = BIG
            elif self.t_gone >= 0 and self.t_conn < 0 and not (self.killed and case != "kill_pb"):
                # the end of the script is noticed at once
                due = min(due, max(start, self.t_gone) + slack)
            if self.t_conn >= 0 and self.killed:
                # died while it was let in, the adapter waits for another one
                due = max(due, self.t_conn + T + slack)
            if at > due:
                self.bad("C20", "slow", f"resolved at {at:.2f} s, due at {due:.2f} s ({a.why}, script ended {self.t_gone:.2f})")
            gone = self.t_gone if self.t_gone >= 0 else BIG
            if (case in ("ok", "late", "never") and self.t_conn < 0 and self.t_resp >= 0 and not self.killed and not enospc
                    and at < min(gone, self.t_resp + T - 0.2)):
                self.bad("C20", "premature", f"given up at {at:.2f} s although nothing was wrong ({a.why}, script ended {self.t_gone:.2f})")
        if not a.proc.alive and a.resp is not None and not a.ok and not left and a.proc.exit_code not in (0, 1):
            self.bad("C20", "exit", f"the adapter of the failed launch ended with {a.proc.exit_code}")
        if a.ok and not left and not self.killed and failed != "failed_thread.start":
            self.judge_playbook("C20")
        # nothing stays behind
        alive = [n for n in self.env.alive() if not n.startswith("client")]
        if alive:
            self.bad("C20", "process", f"still running: {alive}")
        left_files = [n for n in self.env.residue() if n != "t dir"]
        if self.tdir:
            left_files += os.listdir(self.tdir)
        if self.killed and case != "kill_pb" or enospc and self.ans is not None:
            left_files = [n for n in left_files if n.startswith("ansibug-launch")]
        if left_files and not alive:
            self.bad("C20", "residue", f"left behind: {left_files}")
        for k in self.env.net.all:
            if k.state in ("listening", "connected") and k.refs > 0 and not alive:
                self.bad("C20", "socket", f"{k} is still open")
        self.check_adapters("C20")


def Attempt(name: str, timeout: float, proc: t.Any, client: t.Any) -> t.Any:
    from .attach import Attempt as A

    a = A(name)
    a.proc, a.client, a.timeout = proc, client, timeout
    return a
