"""The ansible-playbook process: real Ansible with simulated workers.

Real: CLI, inventory, PlaybookExecutor, TaskQueueManager, PlayIterator, the
linear strategy, VariableManager, templating, TaskExecutor and action plugins.
Simulated: the worker processes (threads of the simulation with drawn task
durations), the queue that carries their results, and the terminal output.
"""

from __future__ import annotations

import copy as copy_module
import os
import queue
import sys
import threading
import typing as t

from . import kernel, seams

SHARED = "/repo/src/ansibug"


def env_for_zygote(home: str) -> None:
    os.environ.update(
        ANSIBLE_STRATEGY="ansibug.dap.debug",
        ANSIBLE_CALLBACKS_ENABLED="ansibug.dap.debug",
        ANSIBLE_COLLECTIONS_PATH=SHARED,
        ANSIBLE_HOME=home,
        ANSIBLE_LOCAL_TEMP=os.path.join(home, "tmp"),
        ANSIBLE_LOCALHOST_WARNING="0",
        ANSIBLE_TRANSPORT="local",
        ANSIBLE_NOCOLOR="1",
        ANSIBLE_RETRY_FILES_ENABLED="0",
        ANSIBLE_DEPRECATION_WARNINGS="0",
        ANSIBLE_INVENTORY_UNPARSED_WARNING="0",
        ANSIBLE_ROLES_PATH="/nonexistent",
        ANSIBLE_CONFIG=os.path.join(home, "ansible.cfg"),
    )
    os.makedirs(home, exist_ok=True)
    with open(os.path.join(home, "ansible.cfg"), "w") as f:
        f.write("[defaults]\n")
    for k in list(os.environ):
        if k.startswith("ANSIBUG_"):
            del os.environ[k]


class AnsibleRun:
    """Per run parameters and observations of the simulated ansible-playbook."""

    def __init__(self) -> None:
        self.durations = [0.0, 0.01, 0.3, 3.0]
        self.p_long = 0.3
        self.forks = 5
        self.display: list[str] = []
        self.worker_crash = 0.0
        self.baseline = False


RUN: AnsibleRun | None = None


def set_run(r: AnsibleRun | None) -> None:
    global RUN
    RUN = r


def _loc(task: t.Any) -> tuple[str, int]:
    p = task.get_path()
    if not p:
        return "", 0
    path, line = p.rsplit(":", 1)
    return path, int(line)


def chain_of(task: t.Any) -> list[tuple[str, str, int, bool, bool]]:
    """Enclosing includes, innermost first: (uuid, path, line, dynamic, of a handler)."""
    from ansible.playbook.handler import Handler
    from ansible.playbook.task import Task

    out = []
    p = task._parent
    while p is not None:
        if isinstance(p, Task):
            path, line = _loc(p)
            out.append((p._uuid, path, line, not getattr(p, "statically_loaded", False), isinstance(p, Handler)))
        p = p._parent
    return out


class SimWorker(threading.Thread):
    exitcode = 0
    asked = 0
    asked_at = 0.0

    def __init__(self, final_q: t.Any, task_vars: t.Any, host: t.Any, task: t.Any, play_context: t.Any, loader: t.Any,
                 variable_manager: t.Any, shared_loader_obj: t.Any, worker_id: int) -> None:
        super().__init__(name=f"worker-{host.name}", daemon=True)
        copy = task.copy(exclude_parent=True, exclude_tasks=True)
        copy.args = copy_module.deepcopy(task.args)  # a process of its own has a copy of its own
        copy._parent = task._parent
        copy._uuid = task._uuid
        self._orig = task
        self._w = (host, copy, dict(task_vars), play_context, None, loader, shared_loader_obj, final_q, variable_manager)
        self._final_q = final_q
        self.worker_id = worker_id
        self.worker_queue: queue.Queue[t.Any] = queue.Queue()
        self.result: t.Any = None

    def terminate(self) -> None:
        pass

    def is_alive(self) -> bool:
        alive = super().is_alive()
        if alive and kernel.in_sim():
            # with a throttle Ansible spins until a worker is free: let the time pass
            sim = t.cast(kernel.Sim, kernel.SIM)
            self.asked = self.asked + 1 if sim.now == self.asked_at else 1
            self.asked_at = sim.now
            if self.asked > 3:
                sim.sleep(0.0001)
                alive = super().is_alive()
        return alive

    def run(self) -> None:
        from ansible.errors import AnsibleConnectionFailure
        from ansible.executor.task_executor import TaskExecutor
        from ansible.executor.task_result import TaskResult

        sim = t.cast(kernel.Sim, kernel.SIM)
        host, task = self._w[0], self._w[1]
        r = t.cast(AnsibleRun, RUN)
        vars_ = self._w[2]
        probe = {k: str(vars_.get(k)) for k in sorted(x for x in vars_ if isinstance(x, str)) if k.startswith("probe_")}
        unreachable = host.name in (task.vars.get("sim_unreachable") or ())
        try:
            if task.action in ("gather_facts", "setup", "ansible.builtin.gather_facts", "ansible.legacy.gather_facts"):
                res: dict[str, t.Any] = {"changed": False, "ansible_facts": {}}
            else:
                res = TaskExecutor(*self._w).run()
            if unreachable and not res.get("skipped"):
                res = {"unreachable": True, "changed": False, "msg": f"cannot reach {host.name}"}
        except AnsibleConnectionFailure:
            res = {"unreachable": True}
        except Exception as e:
            res = {"failed": True, "exception": repr(e), "stdout": ""}
        d = sim.ch.weighted("work", [1 - r.p_long] + [r.p_long / max(len(r.durations) - 1, 1)] * (len(r.durations) - 1))
        sim.sleep(r.durations[d])
        path, line = _loc(self._orig)
        items = [str(x.get("msg", "")) if isinstance(x, dict) else str(x) for x in res.get("results", ())]
        args = ""
        if not items and not res.get("skipped") and "exception" not in res:
            args = repr(sorted((str(k), str(v)) for k, v in task.args.items()))
        fields = task.dump_attrs()
        tr = TaskResult(host, self._orig, res, fields)
        status = (
            "failed" if tr.is_failed() else "unreachable" if tr.is_unreachable() else "skipped" if tr.is_skipped() else "ok"
        )
        sim.log(
            "task.end", host=host.name, uuid=self._orig._uuid, path=path, line=line, status=status,
            msg=str(res.get("msg", ""))[:200], args=args, probe=probe, rescued=rescued(self._orig),
            ignore=bool(fields.get("ignore_errors")), ignore_unreachable=bool(fields.get("ignore_unreachable")),
            items=len(items), item_msgs=items, action=task.action,
        )
        self._final_q.send_task_result(host.name, self._orig._uuid, res, task_fields=fields)


class SimFinalQueue:
    def __init__(self, *a: t.Any, **kw: t.Any) -> None:
        self._q: queue.Queue[t.Any] = queue.Queue()

    def put(self, x: t.Any) -> None:
        self._q.put(x)

    def get(self) -> t.Any:
        return self._q.get()

    def empty(self) -> bool:
        return self._q.empty()

    def close(self) -> None:
        pass


_installed = False


def install() -> None:
    global _installed
    if _installed:
        return
    _installed = True
    import ansible.plugins.strategy as S
    from ansible import constants as C
    from ansible.executor import task_queue_manager as TQM
    from ansible.playbook.handler import Handler
    from ansible.plugins import loader as PL
    from ansible.utils.display import Display
    from ansible.vars import manager as VM

    S.WorkerProcess = SimWorker
    for n in ("send_callback", "send_task_result", "send_display", "send_prompt"):
        setattr(SimFinalQueue, n, getattr(TQM.FinalQueue, n))
    TQM.FinalQueue = SimFinalQueue
    C.DEFAULT_INTERNAL_POLL_INTERVAL = 0.02
    S.C.DEFAULT_INTERNAL_POLL_INTERVAL = 0.02

    base_queue = S.StrategyBase._queue_task
    base_meta = S.StrategyBase._execute_meta

    def _queue_task(self: t.Any, host: t.Any, task: t.Any, task_vars: t.Any, play_context: t.Any) -> t.Any:
        if kernel.in_sim():
            sim = t.cast(kernel.Sim, kernel.SIM)
            path, line = _loc(task)
            sim.log(
                "task.start", host=host.name, uuid=task._uuid, path=path, line=line, name=task.get_name(),
                action=task.action, chain=chain_of(task), handler=isinstance(task, Handler),
            )
        return base_queue(self, host, task, task_vars, play_context)

    def _execute_meta(self: t.Any, task: t.Any, play_context: t.Any, iterator: t.Any, target_host: t.Any) -> t.Any:
        if kernel.in_sim():
            sim = t.cast(kernel.Sim, kernel.SIM)
            path, line = _loc(task)
            sim.log(
                "meta.start", host=target_host.name, uuid=task._uuid, path=path, line=line, name=task.get_name(),
                action="meta", meta=task.args.get("_raw_params"), chain=chain_of(task), handler=isinstance(task, Handler),
            )
        return base_meta(self, task, play_context, iterator, target_host)

    base_get_vars = VM.VariableManager.get_vars

    def get_vars(self: t.Any, *a: t.Any, **kw: t.Any) -> t.Any:
        res = base_get_vars(self, *a, **kw)
        host, task = kw.get("host"), kw.get("task")
        sim = t.cast(kernel.Sim, kernel.SIM)
        if kernel.in_sim() and host is not None and task is not None and sim.current is sim.current.proc.main:
            # logged last: a decision about the task can only be made after this
            # (a worker gets the variables of the host it delegates to)
            sim.log("task.vars", host=host.name, uuid=task._uuid)
        return res

    VM.VariableManager.get_vars = get_vars

    base_tqm_run = TQM.TaskQueueManager.run

    def tqm_run(self: t.Any, play: t.Any) -> t.Any:
        if not kernel.in_sim():
            return base_tqm_run(self, play)
        sim = t.cast(kernel.Sim, kernel.SIM)
        sim.log("play.start", play=play.get_name())
        try:
            return base_tqm_run(self, play)
        finally:
            sim.log("play.end", play=play.get_name())

    TQM.TaskQueueManager.run = tqm_run

    base_strategy_get = PL.strategy_loader.get

    def strategy_get(name: str, *a: t.Any, **kw: t.Any) -> t.Any:
        r = RUN
        if r is not None and r.baseline and kernel.in_sim():
            name = "linear"
        return base_strategy_get(name, *a, **kw)

    PL.strategy_loader.get = strategy_get

    base_load_included = S.StrategyBase._load_included_file

    def _load_included_file(self: t.Any, *a: t.Any, **kw: t.Any) -> t.Any:
        res = base_load_included(self, *a, **kw)
        if kernel.in_sim():
            t.cast(kernel.Sim, kernel.SIM).log("include.load")
        return res

    S.StrategyBase._load_included_file = _load_included_file

    S.StrategyBase._queue_task = _queue_task
    S.StrategyBase._execute_meta = _execute_meta

    orig_display = Display.display

    def display(self: t.Any, msg: t.Any, *a: t.Any, **kw: t.Any) -> None:
        if kernel.in_sim():
            r = RUN
            if r is not None:
                r.display.append(str(msg))
            return None
        return orig_display(self, msg, *a, **kw)

    Display.display = display  # type: ignore[method-assign]


def rescued(task: t.Any) -> bool:
    """Will a failure of this task be rescued? Only the block section is guarded."""
    from ansible.playbook.block import Block

    child, p = task, task._parent
    while p is not None:
        if isinstance(p, Block) and p.rescue and any(x._uuid == child._uuid for x in p.block):
            return True
        child, p = p, p._parent
    return False


def run_playbook(argv: list[str]) -> int:
    """ansible-playbook, as `python -m ansible playbook` runs it."""
    from ansible.cli.playbook import PlaybookCLI
    from ansible.errors import AnsibleError, AnsibleOptionsError, AnsibleParserError
    from ansible.utils.display import Display

    from ansible.utils.context_objects import GlobalCLIArgs

    # one set of arguments per process: this interpreter simulates several
    GlobalCLIArgs._Singleton__instance = None  # type: ignore[attr-defined]
    display = Display()
    # CLI.cli_executor without its process exit
    try:
        cli = PlaybookCLI(["ansible-playbook", *argv])
        rc = cli.run()
        return int(rc or 0)
    except AnsibleOptionsError as e:
        display.error(str(e))
        return 5
    except AnsibleParserError as e:
        display.error(str(e))
        return 4
    except AnsibleError as e:
        display.error(str(e))
        return 1
    except KeyboardInterrupt:
        display.error("User interrupted execution")
        return 99
    except SystemExit as e:
        return e.code if isinstance(e.code, int) else 1


def warm(home: str) -> bytes:
    """Loads everything a run needs, so that no import happens under simulation."""
    import importlib
    import json

    from ansible import constants as C

    os.makedirs(home, exist_ok=True)
    pb = os.path.join(home, "warm.yml")
    inc = os.path.join(home, "warm_inc.yml")
    role = os.path.join(home, "roles", "wr", "tasks")
    os.makedirs(role, exist_ok=True)
    os.makedirs(os.path.join(home, "roles", "wr", "handlers"), exist_ok=True)
    with open(os.path.join(role, "main.yml"), "w") as f:
        f.write("- debug: msg=role\n  changed_when: true\n  notify: hh\n")
    with open(os.path.join(home, "roles", "wr", "handlers", "main.yml"), "w") as f:
        f.write("- name: hh\n  debug: msg=hh\n")
    with open(inc, "w") as f:
        f.write("- debug: msg=x\n- debug: msg=y\n  when: false\n")
    with open(pb, "w") as f:
        f.write(
            """- hosts: all
  strategy: linear
  gather_facts: false
  vars: {a: 1}
  roles: [wr]
  tasks:
  - include_tasks: warm_inc.yml
  - import_tasks: warm_inc.yml
  - include_role: {name: wr}
  - set_fact: {foo: bar}
  - debug: {msg: "{{ foo }} {{ hostvars['h1'] | length }}"}
  - debug: {msg: "{{ item }}"}
    loop: [1, 2]
  - fail: {msg: no}
    ignore_errors: true
  - block:
    - fail: {msg: bad}
    rescue:
    - debug: {msg: rescued}
    always:
    - debug: {msg: always}
  - meta: noop
  - meta: flush_handlers
  - meta: refresh_inventory
  - assert: {that: true}
"""
        )
    saved = C.config.get_config_value
    inv = os.path.join(home, "warm_inv.ini")
    with open(inv, "w") as f:
        f.write("[g]\nh1 x=1\nh2\n")
    real_enabled = C.CALLBACKS_ENABLED
    C.CALLBACKS_ENABLED = []
    try:
        import io
        from contextlib import redirect_stderr, redirect_stdout

        buf = io.StringIO()
        with redirect_stdout(buf), redirect_stderr(buf):
            rc = run_playbook(["-i", inv, pb])
        if rc != 0:
            raise RuntimeError(f"warm up playbook failed rc={rc}\n{buf.getvalue()}")
    finally:
        C.CALLBACKS_ENABLED = real_enabled
    del saved
    from ansible.plugins.loader import strategy_loader, callback_loader

    importlib.import_module("ansible_collections.ansibug.dap.plugins.strategy.debug")
    importlib.import_module("ansible_collections.ansibug.dap.plugins.callback.debug")
    strategy_loader.get("ansibug.dap.debug", class_only=True)
    callback_loader.get("ansibug.dap.debug", class_only=True)
    import ansible.executor.process.worker  # noqa: F401

    dump = []
    for name in ("CALLBACKS_ENABLED", "COLLECTIONS_PATHS"):
        v: list[str] = []
        dump.append({"name": name, "value": v, "default": "", "origin": "default", "type": "list"})
    return json.dumps(dump).encode()
