"""One simulated world: processes, pipes, files and fault plumbing of a run."""

from __future__ import annotations

import json
import os
import shutil
import sys
import threading
import typing as t

from . import ans, kernel, net, seams, sync, tls
from .choice import Chooser
from .dapclient import Client
from .kernel import Event, Sim, SimProcess


class HarnessError(Exception):
    """Something outside the code under test went wrong."""


class ArgvProxy(list):
    """sys.argv, per simulated process."""

    def _t(self) -> list[str]:
        th = kernel.cur()
        if th is not None and kernel.in_sim():
            return getattr(th.proc, "argv", ["prog"])
        return list(self)

    def __getitem__(self, i: t.Any) -> t.Any:
        th = kernel.cur()
        if th is not None and kernel.in_sim():
            return self._t()[i]
        return super().__getitem__(i)

    def __len__(self) -> int:
        th = kernel.cur()
        if th is not None and kernel.in_sim():
            return len(self._t())
        return super().__len__()

    def __iter__(self) -> t.Any:
        th = kernel.cur()
        if th is not None and kernel.in_sim():
            return iter(self._t())
        return super().__iter__()


HELPER = ""


def install_all(base: str) -> bytes:
    """Everything that has to happen once, in the zygote."""
    global HELPER
    kernel.mark_controller()
    # stable locks for modules that were loaded before the simulation
    home = os.path.join(base, "home")
    ans.env_for_zygote(home)
    os.makedirs(home, exist_ok=True)
    os.environ["TMPDIR"] = base
    sys.path.insert(0, "/repo/src")
    import ansibug.__main__  # noqa: F401
    import ansibug._debug_adapter  # noqa: F401
    import ansibug._debuggee  # noqa: F401
    import ansible.cli.playbook  # noqa: F401
    import logging

    if not ansibug.__file__.startswith("/repo/src/"):
        raise RuntimeError(f"wrong ansibug imported: {ansibug.__file__}")
    logging.lastResort = None
    logging.raiseExceptions = False
    logging.getLogger("ansibug").addHandler(logging.NullHandler())
    helper = os.path.join(base, "py")
    with open(helper, "w") as f:
        f.write(
            "#!/bin/sh\n"
            'for a in "$@"; do printf \'%s\\0\' "$a"; done >> "$SIM_HELPER_LOG"\n'
            "printf '\\001' >> \"$SIM_HELPER_LOG\"\n"
            'case "$1$SIM_HELPER_SIG" in -m?*) kill -$SIM_HELPER_SIG $PPID;; esac\n'
            'case "$1" in -m) exit ${SIM_HELPER_RC:-0};; esac\n'
        )
    os.chmod(helper, 0o755)
    HELPER = helper
    sync.install()
    net.install()
    seams.install()
    tls.install()
    ans.install()
    # plain threads for the warm up: worker threads are real there
    dump = warm(home)
    sys.argv = ArgvProxy(sys.argv)
    sys.executable = helper
    kernel.instrument(("/repo/src/ansibug/",))
    return dump


def warm(home: str) -> bytes:
    """Runs one playbook inside a throw-away simulation to load all plugins."""
    out: list[t.Any] = []
    sim = Sim(Chooser(0))
    kernel.set_sim(sim)
    net.set_net(net.Net(sim))
    ans.set_run(ans.AnsibleRun())

    def main() -> int:
        try:
            out.append(ans.warm(home))
        except BaseException as e:
            import traceback

            out.append(e)
            out.append(traceback.format_exc())
        return 0

    sim.spawn("warm", main)
    sim.run(120)
    kernel.set_sim(None)
    net.set_net(None)
    if not out or not isinstance(out[0], bytes):
        raise RuntimeError(f"warm up failed: {out} {ans.RUN.display if ans.RUN else ''} {sim.harness_error}")
    return t.cast(bytes, out[0])


class Env:
    """World of one run."""

    def __init__(self, chooser: Chooser, base: str, slot: str, config_dump: bytes, verbose: bool = False) -> None:
        self.ch = chooser
        self.sim = Sim(chooser, verbose=verbose)
        self.net = net.Net(self.sim)
        self.root = os.path.join(base, slot)
        shutil.rmtree(self.root, ignore_errors=True)
        self.tmp = os.path.join(self.root, "tmp")
        self.pb = os.path.join(self.root, "pb")
        os.makedirs(self.tmp)
        os.makedirs(self.pb)
        seams.use_tmpdir(self.tmp)
        self.world = seams.World(self.sim, self.tmp)
        self.world.config_dump = config_dump
        self.arun = ans.AnsibleRun()
        self.clients: list[Client] = []
        self.das: list[SimProcess] = []
        self.playbooks: list[SimProcess] = []
        self.terminals: list[SimProcess] = []
        self.stdin_cap = 65536
        self.stdout_cap = 65536
        self.p_stdin_short = 0.0
        kernel.set_sim(self.sim)
        net.set_net(self.net)
        seams.set_world(self.world)
        ans.set_run(self.arun)

    def close(self) -> None:
        kernel.set_sim(None)
        net.set_net(None)
        seams.set_world(None)
        ans.set_run(None)
        shutil.rmtree(self.root, ignore_errors=True)

    # ------------------------------------------------------------- processes

    def start_da(self, args: list[str] | None = None, name: str = "da") -> tuple[SimProcess, Client]:
        sim = self.sim
        to_da = net.Pipe(sim, self.stdin_cap)
        from_da = net.Pipe(sim, self.stdout_cap)
        to_da.p_short = self.p_stdin_short

        def setup(p: SimProcess) -> None:
            p.argv = ["ansibug", "dap", *(args or [])]  # type: ignore[attr-defined]
            p.stdin = net.StdinText(to_da)
            p.stdout = net.StdoutText(from_da)

        def main() -> None:
            import ansibug.__main__ as m

            m.main()

        proc = sim.spawn(name, main, setup=setup)
        self.das.append(proc)
        n = len(self.clients)
        client = Client(sim, f"client{n or ''}", to_da, from_da)
        self.clients.append(client)
        cproc = sim.spawn(f"client{n or ''}-reader", client.reader, client=True)
        del cproc
        return proc, client

    def ansible_main(self, argv: list[str]) -> t.Callable[[], int]:
        """python -m ansibug <argv>, followed across exec."""

        def main() -> int:
            import ansibug.__main__ as m

            sim = self.sim
            cur = t.cast(kernel.SimThread, sim.current)
            try:
                m.main()
                return 0
            except kernel.SimExec as e:
                exe = e
            proc = cur.proc
            proc.atexit.clear()
            for fd in list(proc.fds):
                proc.close_fd(fd)
            proc.env = {k: v for k, v in exe.env.items() if os.environ.get(k) != v}
            sim.log("exec", argv=exe.argv[1:], env={k: v for k, v in proc.env.items() if k.startswith("ANSI")})
            sim.sleep(self.exec_delay)
            for k in list(os.environ):
                if k.startswith("ANSIBUG_"):
                    del os.environ[k]
            for k, v in exe.env.items():
                if k.startswith("ANSIBUG_"):
                    os.environ[k] = v
            want = ("ansibug.dap.debug", "ansibug.dap.debug")
            got = (exe.env.get("ANSIBLE_STRATEGY"), (exe.env.get("ANSIBLE_CALLBACKS_ENABLED") or "").split(",")[0])
            if got != want or exe.argv[1:4] != ["-m", "ansible", "playbook"]:
                sim.log("exec.unexpected", got=got, argv=exe.argv)
                return 97
            sim.log("playbook.start", argv=exe.argv[4:])
            rc = ans.run_playbook(exe.argv[4:])
            sim.log("playbook.end", rc=rc)
            return rc

        return main

    def baseline(self, argv: list[str]) -> tuple[int, list[Event], list[str]]:
        """The same playbook without any debugger, in a simulation of its own."""
        from ansible import constants as C

        sim = Sim(Chooser(0))
        main_sim = self.sim
        run = ans.AnsibleRun()
        run.baseline = True
        run.p_long = 0.0
        out: list[int] = []
        saved = C.CALLBACKS_ENABLED
        C.CALLBACKS_ENABLED = []
        world = seams.World(sim, self.tmp)
        kernel.set_sim(sim)
        net.set_net(net.Net(sim))
        seams.set_world(world)
        ans.set_run(run)
        try:
            sim.spawn("baseline", lambda: out.append(ans.run_playbook(argv)))
            end = sim.run(60)
            if end != "quiescent" or not out:
                raise HarnessError(f"baseline run failed: {end} {sim.harness_error} {run.display[-5:]}"
                                   + "".join(p.stderr_text.getvalue() for p in sim.procs))
        finally:
            C.CALLBACKS_ENABLED = saved
            kernel.set_sim(main_sim)
            net.set_net(self.net)
            seams.set_world(self.world)
            ans.set_run(self.arun)
        return out[0], sim.history, run.display

    exec_delay = 0.3

    def start_ansibug(self, args: list[str], name: str = "ans", env: dict[str, str] | None = None) -> SimProcess:
        def setup(p: SimProcess) -> None:
            p.argv = ["ansibug", *args]  # type: ignore[attr-defined]

        proc = self.sim.spawn(name, self.ansible_main(args), setup=setup, env=env)
        self.playbooks.append(proc)
        return proc

    def run_script(self, args: list[str], rc: int = 0, sig: str = "") -> list[list[str]]:
        """Runs the launch script for real; returns the python invocations it made."""
        log = os.path.join(self.root, "helper.log")
        with seams.real_open(log, "w"):
            pass
        env = dict(os.environ, SIM_HELPER_LOG=log, SIM_HELPER_RC=str(rc), SIM_HELPER_SIG=sig, TMPDIR=self.tmp)
        # fork and exec directly: subprocess would consult the (virtual) clock
        try:
            pid = os.posix_spawn(
                args[0], args, env,
                file_actions=[
                    (os.POSIX_SPAWN_OPEN, 0, "/dev/null", os.O_RDONLY, 0),
                    (os.POSIX_SPAWN_OPEN, 1, "/dev/null", os.O_WRONLY, 0),
                    (os.POSIX_SPAWN_OPEN, 2, "/dev/null", os.O_WRONLY, 0),
                ],
            )
        except OSError as e:
            self.sim.log("script.oserror", error=str(e))
            return []
        os.waitpid(pid, 0)
        with seams.real_open(log, "rb") as f:
            data = f.read()
        out = []
        for rec in data.split(b"\x01"):
            if rec:
                out.append([x.decode() for x in rec.split(b"\0")[:-1]])
        return out

    def terminal(self, req: dict[str, t.Any], start_delay: float = 0.0, fail_early: bool = False, sig: str = "") -> SimProcess:
        """The client's terminal: runs what runInTerminal asked for."""
        sim = self.sim
        args = list(req["arguments"]["args"])

        def main() -> int:
            if start_delay:
                sim.sleep(start_delay)
            if not os.path.exists(args[0]):
                sim.log("terminal.noscript")
                return 127
            calls = self.run_script(args, rc=1 if fail_early or sig else 0, sig=sig)
            sim.log("terminal.script", calls=[c[:3] for c in calls], left=os.path.exists(args[0]))
            code = 0
            for call in calls:
                if call[:2] == ["-m", "ansibug"]:
                    if sig:
                        sim.fault(f"terminal_{sig}")
                    if fail_early or sig:
                        sim.sleep(0.05)
                        sim.log("terminal.early_exit")
                        code = 1
                        continue
                    p = self.start_ansibug(call[2:])
                    while p.alive:
                        sim.wait_on(p.waiters, "terminal")
                    code = p.exit_code or 0
                elif call[0] == "-c":
                    src = call[1]

                    def run_c(src: str = src) -> None:
                        exec(compile(src, "<launch-cleanup>", "exec"), {"__name__": "__main__"})

                    cp = sim.spawn("cleanup", run_c)
                    while cp.alive:
                        sim.wait_on(cp.waiters, "terminal")
            return code

        proc = sim.spawn("terminal", main, client=True)
        self.terminals.append(proc)
        return proc

    # ------------------------------------------------------------- inspection

    def residue(self) -> list[str]:
        return sorted(os.listdir(self.tmp))

    def alive(self) -> list[str]:
        return [p.name for p in self.sim.procs if p.alive]
