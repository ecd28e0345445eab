"""C23: the file that advertises a listening playbook, over its whole life."""

from __future__ import annotations

import os
import typing as t

from . import tls
from .attach import World


class Advert(World):
    KINDS = {"finish": 3, "by_address": 1, "nowait": 2, "sigint_wait": 2, "sigint_run": 2, "vanish": 2, "terminate": 2, "disk": 2, "badaddr": 1,
             "kill": 0.7, "badtls": 0.7, "leftover": 1.5, "sysfail": 2}
    ADDRS = ["uds://", "uds://my-sock", "uds:{tmp}/own.sock", "uds://{tmp}/a b.sock", "tcp://", "tcp://:0", "tcp://localhost:0", "tcp://:41234"]

    def build(self) -> None:
        ch = self.ch
        ks = list(self.KINDS)
        self.case = ks[ch.weighted("cfg", list(self.KINDS.values()))]
        abort = ch.flip("cfg", 0.2) and self.case in ("finish", "nowait")
        self.setup_pb(**({"abort": 1.0} if abort else {}))
        addr = self.ADDRS[ch.decide("cfg", len(self.ADDRS))].format(tmp=self.env.tmp)
        self.kind = "uds" if addr.startswith("uds") else "tcp"
        self.pb_tls = ch.flip("cfg", 0.25) or self.case == "badtls"
        np = self.env.net.policy
        if self.pb_tls:
            np.capacity = max(np.capacity, 4096)
            np.latency = min(np.latency, 0.05)
            np.jitter = min(np.jitter, 0.05)
        extra = []
        if self.pb_tls:
            extra = ["--wrap-tls"]
            if self.case == "badtls":
                bad = os.path.join(self.env.root, "bad.pem")
                with open(bad, "w") as f:
                    f.write("no certificate\n")
                extra += ["--tls-cert", [bad, bad + ".gone"][ch.decide("cfg", 2)]]
            else:
                extra += ["--tls-cert", tls.cert("server")]
        fs = self.env.world.fs
        if self.case == "disk":
            if ch.decide("cfg", 3):
                fs.enospc_after = [0, 1, 30, ch.decide("cfg", 200)][ch.decide("cfg", 4)]
            else:
                fs.torn = 0.9
        if self.case == "sysfail":
            self.draw_sysfail(["ans"])
        if self.case == "badaddr":
            addr = ["uds://" + os.path.join(self.env.tmp, "no", "dir"), "http://x", "tcp://nowhere", "tcp://:99999"][ch.decide("cfg", 4)]
            self.kind = "tcp"
        if self.case == "leftover":
            # of a process with the same number that was killed while it wrote the file
            for i in range(1, 3):
                with open(os.path.join(self.env.tmp, f".ansibug-pid-{4001}"), "w") as f:
                    f.write("{\"pid\": 4001, " + "x" * (400 * i))
        if ch.flip("cfg", 0.15):
            np_ = self.env.net.policy
            np_.p_short_read = 0.3
        self.cfg.update(kind=self.kind, case=self.case, tls=self.pb_tls, abort=abort, addr=addr.replace(self.env.tmp, "TMP"), by="pid")
        self.no_wait = self.case == "nowait" or self.case == "disk" and ch.flip("cfg", 0.3)
        if self.no_wait:
            extra.append("--no-wait")
        self.listen(addr, extra)
        self.main = self.sim.spawn("client", self._main, client=True)

    def _main(self) -> None:
        ch, sim = self.ch, self.sim
        ans = t.cast(t.Any, self.ans)
        case = self.case
        if case == "sigint_run" and ch.decide("end", 3) == 0:
            # anywhere, most likely before it listens
            sim.at_step(ch.decide("end", 2500), self._sigint)
            self.until(lambda: not ans.alive, 500.0)
            self._sigint()
            return
        d = self.wait_info()
        self.shown = d
        if d is None:
            return
        if case in ("badaddr", "badtls", "nowait"):
            return
        if ch.flip("pace", 0.4):
            sim.sleep([0.01, 1.0, 60.0][ch.decide("pace", 3)])
            if ans.alive and self.info() is None and not self.no_wait:
                self.bad("C23", "hidden", "the playbook still waits for an adapter but is not advertised anymore")
        if case == "sigint_wait":
            self._sigint()
            return
        if case == "kill":
            sim.fault("kill_ans")
            sim.kill(ans)
            return
        exp = "ok"
        if self.no_wait or case == "sysfail" or case == "disk" and self.env.world.fs.enospc_after >= 0:
            exp = "either"
        a = self._attach(ans, d, case, exp)
        if case == "vanish":
            self.until(lambda: a.resp is not None or not a.proc.alive)
            sim.at_step(sim.steps + ch.decide("end", 1500), lambda: self._kill(a.proc))
            sim.sleep(3.0)
            self._kill(a.proc)
        elif case == "terminate":
            self.until(lambda: a.resp is not None or not a.proc.alive)
            if ch.decide("end", 2):
                sim.sleep([0.1, 0.5][ch.decide("end", 2)])
            if not a.client.eof and not a.client.gone:
                a.client.send("terminate")
        elif case == "sigint_run":
            self.until(lambda: a.resp is not None or not a.proc.alive)
            sim.at_step(sim.steps + ch.decide("end", 2000), self._sigint)

    def _kill(self, p: t.Any) -> None:
        if p.alive:
            self.sim.fault("kill_da")
            self.sim.kill(p)

    def _attach(self, p: t.Any, d: dict[str, t.Any], why: str, exp: str = "ok") -> t.Any:
        if self.case == "by_address" or self.pb_tls and self.kind == "tcp":
            args = {"address": d["address"], **self.tls_args()}
            if self.kind == "tcp":
                args["address"] = self.target(d["address"])
        else:
            args = {"processId": p.pid, **({"tlsVerification": "ignore"} if self.pb_tls else {})}
        return self.attempt(f"to-{p.name}", why, args, exp, timeout=600.0, hold=[0.0, 3.0][self.ch.decide("pace", 2)])

    shown: dict[str, t.Any] | None = None

    def judge(self) -> None:
        sim = self.sim
        case = self.case
        ans = t.cast(t.Any, self.ans)
        self.count("c23.runs")
        self.count(f"c23.{case}.{'shown' if ans.pid in self.published else 'hidden'}")
        enospc = bool(sim.faults.get("enospc"))
        for a in self.attempts:
            if sim.stalled > 4:
                a.expect = "either"
            if a.expect == "ok" and a.resp is not None and not a.ok:
                self.bad("C23", "unattachable", f"{a.name} ({a.why}) failed: {str(a.resp.get('message'))[-300:]}")
        may_fail = case in ("badaddr", "badtls", "sysfail") or enospc or case.startswith("sigint")
        for p in self.env.playbooks:
            if p.pid not in self.published and not may_fail and p.exit_how != "killed":
                self.bad("C23", "hidden", f"{p.name} listened without being advertised")
            if p.alive:
                if enospc or case in ("badaddr", "badtls") or case == "sysfail" and p.pid not in self.published:
                    # it could not listen, but then it must not wait either
                    self.bad("C23", "stuck", f"{p.name} waits although it could not be advertised")
                elif sim.stalled <= 4 and case != "sysfail":
                    self.bad("C23", "playbook-stuck", f"{p.name} never ended")
        if case in ("badaddr", "badtls") and self.published:
            self.bad("C23", "bogus", "a playbook that listens nowhere was advertised")
        if not any(p.alive for p in self.env.playbooks) and case != "kill" and not self.exempt():
            self.judge_residue("C23")
        if case in ("finish", "by_address", "nowait", "leftover") and not enospc and sim.stalled <= 4:
            self.judge_playbook("C23", ran=not self.cfg["abort"])
        self.check_adapters("C23")
