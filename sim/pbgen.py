"""Random playbooks with an independent model of their line structure."""

from __future__ import annotations

import os
import typing as t

from .choice import Chooser

TASK, BLOCK, PLAY = "task", "block", "play"


class FileModel:
    """One YAML file being written and the regions a breakpoint can fall into."""

    def __init__(self, path: str) -> None:
        self.path = path
        self.lines: list[str] = []
        self.regs: dict[int, str] = {}
        self.static = False

    def emit(self, indent: int, text: str) -> int:
        self.lines.append(" " * indent + text)
        return len(self.lines)

    def reg(self, line: int, kind: str) -> None:
        self.regs[line] = kind

    def expect(self, line: int) -> tuple[int, int, bool | None]:
        """(line, endLine, verified) of a breakpoint requested at line; None: either."""
        marks = sorted(self.regs)
        if not marks:
            return 0, 0, False
        last = marks[-1]
        below = [m for m in marks if m <= line]
        if not below:
            return 0, marks[0] - 1, False
        start = below[-1]
        later = [m for m in marks if m > start]
        end = later[0] - 1 if later else last
        kind = self.regs[start]
        return start, end, {TASK: True, BLOCK: False, PLAY: None}[kind]

    def write(self) -> None:
        os.makedirs(os.path.dirname(self.path), exist_ok=True)
        with open(self.path, "w") as f:
            f.write("\n".join(self.lines) + "\n")


class Shape:
    """What a scenario wants from its playbooks."""

    def __init__(self, **kw: t.Any) -> None:
        self.max_plays = 3
        self.max_items = 4
        self.max_depth = 3
        self.budget = 14
        self.failures = True
        self.includes = True
        self.imports = True
        self.roles = True
        self.blocks = True
        self.abort = 0.0
        self.refresh = True
        self.gather = True
        self.serial = True
        self.delegate = False
        self.nested = 0.6
        self.recurse = 1.2
        self.deep = 0.0  # share of playbooks with files below a second copy of the root's path
        for k, v in kw.items():
            assert hasattr(self, k), k
            setattr(self, k, v)


class Playbook:
    def __init__(self, root: str) -> None:
        self.root = root
        self.main = os.path.join(root, "main.yml")
        self.inventory = os.path.join(root, "inv.ini")
        self.files: dict[str, FileModel] = {}
        self.hosts: list[str] = []
        self.n_tasks = 0
        self.n_plays = 0
        self.args: list[str] = []
        self.has_static_import = False
        self.aborts = False
        self.kinds: dict[str, int] = {}
        self.msgs: dict[str, str] = {}  # task -> its message, %h is the host
        self.nested: set[str] = set()  # tasks whose message is a structure
        self.facts: dict[str, str] = {}  # tasks that set the fact probe_f, to what

    def file(self, path: str) -> FileModel:
        f = FileModel(path)
        self.files[path] = f
        return f


class Gen:
    def __init__(self, ch: Chooser, root: str, shape: Shape) -> None:
        self.ch = ch
        self.shape = shape
        self.pb = Playbook(root)
        self.n = 0
        self.incs: list[tuple[str, int, str]] = []  # include files (path, depth of own nesting, context)
        self.roles: list[str] = []
        self.nfile = 0
        self.nrole = 0
        self.budget = shape.budget
        self.handlers = False
        self.in_progress: set[str] = set()
        self.recursive: set[str] = set()
        self.deep = ch.flip("pb", shape.deep)

    def d(self, n: int) -> int:
        return self.ch.decide("pb", n)

    def w(self, weights: t.Sequence[float]) -> int:
        return self.ch.weighted("pb", weights)

    # ------------------------------------------------------------------ parts

    def host(self) -> str:
        return self.pb.hosts[self.d(len(self.pb.hosts))]

    def name(self) -> str:
        self.n += 1
        self.pb.n_tasks += 1
        if self.w([7, 1]):
            return f"t{self.n} " + ["tâche", "задача", "課題", "\U0001f600"][self.d(4)]
        return f"t{self.n}"

    def count(self, kind: str) -> None:
        self.pb.kinds[kind] = self.pb.kinds.get(kind, 0) + 1

    def tasks(self, f: FileModel, ind: int, depth: int, lo: int = 1, hi: int | None = None, ctx: str = "") -> None:
        n = lo + self.w([3, 4, 3, 1][: (hi or self.shape.max_items) - lo + 1])
        for _ in range(n):
            self.item(f, ind, depth, ctx)

    def item(self, f: FileModel, ind: int, depth: int, ctx: str) -> None:
        s = self.shape
        self.budget -= 1
        deep = depth < s.max_depth and self.budget > 0
        weights = {
            "debug": 10.0,
            "skip": 2,
            "set_fact": 1.5,
            "loop": 1.5,
            "when_host": 2,
            "changed": 2 if self.handlers else 0,
            "multi": 1.5,
            "run_once": 1,
            "noop": 1,
            "flush": 0.7 if ctx != "handlers" else 0,
            "fail_ignored": 2 if s.failures else 0,
            "fail": 1.2 if s.failures else 0,
            "fail_host": 1.2 if s.failures else 0,
            "unreachable": 0.6 if s.failures else 0,
            "unreachable_ignored": 0.6 if s.failures else 0,
            "loop_fail": 0.6 if s.failures else 0,
            "fail_template": 0.8 if s.failures else 0,
            "unreachable_errors": 0.4 if s.failures else 0,
            "refresh": 0.4 if s.refresh else 0,
            "clear_errors": 0.3 if s.failures and s.refresh else 0,
            "retry": 0.5 if s.failures else 0,
            "delegate": 0.5,
            "recurse": s.recurse if s.includes and f.path in self.in_progress and f.path not in self.recursive and ctx != "handlers" else 0,
            "fatal": 0.3 if s.failures else 0,
            "throttle": 0.4,
            "nested": s.nested,
            "clear_facts": 0.3,
            "tagged": 0.6,
            "end_meta": 0.5 if ctx != "handlers" and s.failures else 0,
            "block": 3 if deep and s.blocks and ctx != "handlers" else 0,
            "include": 3.5 if deep and s.includes else 0,
            "include_loop": 1 if deep and s.includes else 0,
            "import": 1.2 if deep and s.imports else 0,
            "include_role": 1.2 if deep and s.roles and ctx != "handlers" else 0,
            "import_role": 0.7 if deep and s.roles and s.imports and ctx != "handlers" else 0,
            "abort": s.abort,
        }
        kinds = list(weights)
        k = kinds[self.w(list(weights.values()))]
        self.count(k)
        if k == "debug":
            self.simple(f, ind, [])
        elif k == "multi":
            self.simple(f, ind, ["vars:", "  unused: 1", "# a comment", ""])
        elif k == "skip":
            self.simple(f, ind, ["when: false"])
        elif k == "when_host":
            h = self.d(len(self.pb.hosts))
            self.simple(f, ind, [f"when: inventory_hostname == '{self.pb.hosts[h]}'"])
        elif k == "set_fact":
            n = self.name()
            line = f.emit(ind, f"- name: {n}")
            f.emit(ind + 2, self.mod("set_fact:"))
            if self.d(2):
                f.emit(ind + 4, f"probe_f: f{self.n}")
                self.pb.facts[n] = f"f{self.n}"
            else:
                f.emit(ind + 4, f"fact_{self.n}: v{self.n}")
            f.reg(line, TASK)
        elif k == "loop":
            self.simple(f, ind, ["loop: [1, 2]"], loop=True)
        elif k == "changed":
            self.simple(f, ind, ["changed_when: true", "notify: hnd"])
        elif k == "run_once":
            self.simple(f, ind, ["run_once: true"])
        elif k == "retry":
            self.simple(f, ind, ["retries: 2", "delay: 0", "until: false", "ignore_errors: true"])
        elif k == "fatal":
            self.simple(f, ind, ["any_errors_fatal: true", f"failed_when: inventory_hostname == '{self.host()}'"])
        elif k == "nested":
            n = self.name()
            line = f.emit(ind, f"- name: {n}")
            f.emit(ind + 2, self.mod("debug:"))
            f.emit(ind + 4, f"msg: {{a: x{n.split()[0]}, l: [1, '{{{{ inventory_hostname }}}}']}}")
            f.reg(line, TASK)
            self.pb.nested.add(n)
        elif k == "throttle":
            self.simple(f, ind, ["throttle: 1"])
        elif k == "tagged":
            self.simple(f, ind, [["tags: [sim]", "tags: always", "tags: never"][self.d(3)]])
        elif k == "recurse":
            # at most two further rounds on each host
            self.recursive.add(f.path)
            fact = f"round_{len(self.recursive)}"
            n = self.name()
            line = f.emit(ind, f"- name: {n}")
            f.emit(ind + 2, self.mod("set_fact:"))
            f.emit(ind + 4, f"{fact}: '{{{{ {fact} | default(0) | int + 1 }}}}'")
            f.reg(line, TASK)
            n = self.name()
            line = f.emit(ind, f"- name: {n}")
            f.emit(ind + 2, self.mod(f"include_tasks: {os.path.basename(f.path)}"))
            f.emit(ind + 2, f"when: {fact} | default(9) | int < {2 + self.d(2)}")
            f.reg(line, TASK)
        elif k == "delegate":
            self.simple(f, ind, [f"delegate_to: {self.pb.hosts[self.d(len(self.pb.hosts))]}"])
        elif k == "end_meta":
            n = self.name()
            line = f.emit(ind, f"- name: {n}")
            f.emit(ind + 2, f"meta: {['end_host', 'end_play', 'end_batch', 'reset_connection'][self.w([3, 1, 1, 1])]}")
            f.emit(ind + 2, f"when: inventory_hostname == '{self.pb.hosts[self.d(len(self.pb.hosts))]}'")
            f.reg(line, TASK)
        elif k in ("noop", "flush", "refresh", "clear_errors", "clear_facts"):
            what = {"noop": "noop", "flush": "flush_handlers", "refresh": "refresh_inventory", "clear_errors": "clear_host_errors",
                    "clear_facts": "clear_facts"}[k]
            n = self.name()
            line = f.emit(ind, f"- name: {n}")
            f.emit(ind + 2, self.mod(f"meta: {what}"))
            f.reg(line, TASK)
        elif k in ("fail", "fail_ignored", "fail_host", "loop_fail", "fail_template"):
            n = self.name()
            line = f.emit(ind, f"- name: {n}")
            f.emit(ind + 2, self.mod("fail:"))
            self.msg(f, ind + 4, n)
            if k == "fail_template":
                h = self.pb.hosts[self.d(len(self.pb.hosts))]
                f.emit(ind + 2, f"ignore_errors: \"{{{{ inventory_hostname == '{h}' }}}}\"")
            if k == "fail_ignored":
                f.emit(ind + 2, "ignore_errors: true")
            if k == "fail_host":
                f.emit(ind + 2, f"when: inventory_hostname == '{self.pb.hosts[self.d(len(self.pb.hosts))]}'")
            if k == "loop_fail":
                f.emit(ind + 2, "loop: [1, 2]")
                f.emit(ind + 2, "when: item == 2")
            f.reg(line, TASK)
        elif k in ("unreachable", "unreachable_ignored", "unreachable_errors"):
            h = self.pb.hosts[self.d(len(self.pb.hosts))]
            extra = ["vars:", f"  sim_unreachable: [{h}]"]
            if k == "unreachable_ignored":
                extra.append(["ignore_unreachable: true", "ignore_unreachable: '{{ true }}'"][self.d(2)])
            if k == "unreachable_errors":
                extra.append("ignore_errors: true")
            self.simple(f, ind, extra)
        elif k == "block":
            self.block(f, ind, depth, ctx)
        elif k in ("include", "include_loop", "import"):
            target = self.inc_file(f, depth, ctx)
            n = self.name()
            line = f.emit(ind, f"- name: {n}")
            mod = "import_tasks" if k == "import" else "include_tasks"
            f.emit(ind + 2, self.mod(mod) + f": {os.path.relpath(target, os.path.dirname(f.path))}")
            if k == "import":
                self.pb.has_static_import = True
            else:
                f.reg(line, TASK)
                if k == "include_loop":
                    f.emit(ind + 2, "loop: [1, 2]")
                elif self.w([4, 1]):
                    h = self.pb.hosts[self.d(len(self.pb.hosts))]
                    f.emit(ind + 2, f"when: inventory_hostname == '{h}'")
        elif k in ("include_role", "import_role"):
            r = self.role(depth)
            n = self.name()
            line = f.emit(ind, f"- name: {n}")
            f.emit(ind + 2, self.mod(f"{k}:"))
            f.emit(ind + 4, f"name: {r}")
            if k == "include_role":
                f.reg(line, TASK)
            else:
                self.pb.has_static_import = True
        elif k == "abort":
            self.pb.aborts = True
            n = self.name()
            if self.w([2, 1]):
                line = f.emit(ind, f"- name: {n}")
                f.emit(ind + 2, "meta: no_such_action")
                f.reg(line, TASK)
                return
            bad = os.path.join(os.path.dirname(f.path), f"bad{self.n}.yml")
            with open(bad, "w") as fh:
                fh.write("- debug: {msg: 1\n  fail: [\n" if self.d(2) else "- no_such_module_at_all_x: {}\n")
            line = f.emit(ind, f"- name: {n}")
            f.emit(ind + 2, f"include_tasks: {os.path.basename(bad)}")
            f.reg(line, TASK)

    def mod(self, name: str) -> str:
        """Modules of Ansible itself have three names."""
        return ["", "ansible.builtin.", "ansible.legacy."][self.w([6, 2, 0.5])] + name

    def msg(self, f: FileModel, ind: int, n: str, loop: bool = False) -> None:
        k = self.w([5, 1.5, 0.7, 0.5])
        m = [f"m{n}", f"m{n} {{{{ inventory_hostname }}}}", f"m{n} {{{{ probe_h | upper }}}}", f"é{n} {{{{ probe_p }}}}"][k]
        if loop and self.d(2):
            m += " {{ item }}"
        elif k < 2:
            self.pb.msgs[n] = [f"m{n}", f"m{n} %h"][k]
        f.emit(ind, f"msg: {m}")

    def simple(self, f: FileModel, ind: int, extra: list[str], loop: bool = False) -> None:
        n = self.name()
        line = f.emit(ind, f"- name: {n}")
        f.emit(ind + 2, self.mod("debug:"))
        self.msg(f, ind + 4, n, loop)
        for x in extra:
            f.emit(ind + 2, x)
        f.reg(line, TASK)

    def block(self, f: FileModel, ind: int, depth: int, ctx: str) -> None:
        named = self.d(2)
        if named:
            line = f.emit(ind, f"- name: b{self.n}")
            f.emit(ind + 2, "block:")
        else:
            line = f.emit(ind, "- block:")
        f.reg(line, BLOCK)
        self.tasks(f, ind + 2, depth + 1, hi=3, ctx="block")
        r = self.w([2, 3, 1.5, 1.5])
        if r in (1, 3):
            f.emit(ind + 2, "rescue:")
            self.tasks(f, ind + 2, depth + 1, hi=2, ctx="block")
        if r in (2, 3):
            f.emit(ind + 2, "always:")
            self.tasks(f, ind + 2, depth + 1, hi=2, ctx="block")
        if self.w([8, 1]):
            f.emit(ind + 2, "ignore_errors: true")
        if self.w([8, 1]):
            f.emit(ind + 2, f"when: inventory_hostname == '{self.pb.hosts[self.d(len(self.pb.hosts))]}'")

    def inc_file(self, frm: FileModel, depth: int, ctx: str) -> str:
        here = os.path.dirname(frm.path)
        below = here + self.pb.root if self.deep and not here.endswith(self.pb.root * 2) else here
        known = [p for p, dd, c in self.incs if (c == "handlers") == (ctx == "handlers") and os.path.dirname(p) in (here, below)
                 and p not in self.in_progress and dd + depth <= self.shape.max_depth]
        if known and self.w([2, 1]):
            return known[self.d(len(known))]
        self.nfile += 1
        path = os.path.join([here, below][self.d(2)] if below != here else here, f"inc{self.nfile}.yml")
        f = self.pb.file(path)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        self.in_progress.add(path)
        if self.w([4, 1]):
            f.emit(0, "---")
        if self.w([4, 1]):
            f.emit(0, "# comment")
        self.tasks(f, 0, depth + 1, hi=3, ctx="handlers" if ctx == "handlers" else "include")
        self.in_progress.discard(path)
        f.write()
        self.incs.append((path, self.shape.max_depth - depth, ctx))
        return path

    def role(self, depth: int) -> str:
        if self.roles and self.w([2, 1]):
            return self.roles[self.d(len(self.roles))]
        self.nrole += 1
        r = f"r{self.nrole}"
        base = os.path.join(self.pb.root, "roles", r)
        f = self.pb.file(os.path.join(base, "tasks", "main.yml"))
        os.makedirs(os.path.dirname(f.path), exist_ok=True)
        self.tasks(f, 0, depth + 1, hi=3, ctx="role")
        f.write()
        if self.w([2, 1]):
            h = self.pb.file(os.path.join(base, "handlers", "main.yml"))
            line = h.emit(0, "- name: hnd")
            h.emit(2, "debug:")
            h.emit(4, f"msg: h{r}")
            h.reg(line, TASK)
            h.write()
        if self.roles and self.w([3, 1]):
            os.makedirs(os.path.join(base, "meta"))
            with open(os.path.join(base, "meta", "main.yml"), "w") as fh:
                fh.write(f"dependencies:\n- role: {self.roles[self.d(len(self.roles))]}\n")
            self.count("role_dependency")
        self.roles.append(r)
        return r

    # ------------------------------------------------------------------- plays

    def run(self) -> Playbook:
        pb = self.pb
        os.makedirs(pb.root, exist_ok=True)
        pb.hosts = [f"h{i + 1}" for i in range(1 + self.w([3, 4, 2]))]
        with open(pb.inventory, "w") as fh:
            fh.write("[all]\n")
            for h in pb.hosts:
                fh.write(f"{h} probe_h=p{h} probe_i=i{h}\n")
            fh.write("[all:vars]\nprobe_g=g\n")
        f = pb.file(pb.main)
        if self.w([4, 1]):
            f.emit(0, "---")
        pb.n_plays = 1 + self.w([5, 3, 1][: self.shape.max_plays])
        for p in range(pb.n_plays):
            if self.shape.imports and self.w([8, 1]):
                g = pb.file(os.path.join(pb.root, f"plays{p}.yml"))
                f.emit(0, f"- import_playbook: plays{p}.yml")
                self.count("import_playbook")
                self.play(g, p)
                g.write()
            else:
                self.play(f, p)
        f.write()
        pb.args = ["-i", pb.inventory]
        if self.w([12, 1]):
            pb.args += ["--limit", pb.hosts[0]]
        if self.w([12, 1]):
            pb.args += ["--check"]
        if self.w([12, 1]):
            pb.args += [["--tags", "sim"], ["--skip-tags", "sim"], ["--tags", "all,never"]][self.d(3)]
        if self.w([12, 1]):
            pb.args += ["--forks", "1"]
        return pb

    def play(self, f: FileModel, p: int) -> None:
        pb = self.pb
        if self.w([6, 1]):
            f.emit(0, "")
        n = self.w([3, 1])
        target = "all"
        if self.w([4, 1]):
            target = pb.hosts[self.d(len(pb.hosts))]
        if n:
            line = f.emit(0, f"- name: play{p}")
            f.emit(2, f"hosts: {target}")
        else:
            line = f.emit(0, f"- hosts: {target}")
        f.reg(line, PLAY)
        gather = self.shape.gather and self.w([4, 1])
        f.emit(2, f"gather_facts: {'true' if gather else 'false'}")
        if self.shape.serial and self.w([7, 1]):
            f.emit(2, "serial: 1")
        if self.shape.failures and self.w([5, 1]):
            f.emit(2, ["force_handlers: true", "any_errors_fatal: true", "max_fail_percentage: 60"][self.w([2, 1, 1])])
        f.emit(2, "vars:")
        f.emit(4, f"probe_p: play{p}")
        f.emit(4, f"probe_q: {{k: [q{p}, 1]}}")
        if self.shape.failures and self.w([12, 1]):
            f.emit(2, ["ignore_errors: true", "ignore_unreachable: true"][self.d(2)])
        self.handlers = bool(self.w([2, 1]))
        if self.shape.roles and self.w([6, 1]):
            r = self.role(1)
            f.emit(2, "roles:")
            f.emit(2, f"- {r}")
        if self.shape.failures and self.w([6, 1]):
            f.emit(2, "pre_tasks:")
            self.tasks(f, 2, 1, hi=2)
        f.emit(2, "tasks:")
        self.tasks(f, 2, 0)
        if self.w([8, 1]):
            f.emit(2, "post_tasks:")
            self.tasks(f, 2, 1, hi=2)
        if self.handlers:
            f.emit(2, "handlers:")
            second = bool(self.w([3, 1]))
            self.handler(f, p, "hnd", second)
            if second:
                self.handler(f, p, "hnd2")

    def handler(self, f: FileModel, p: int, name: str, second: bool = False) -> None:
        line = f.emit(2, f"- name: {name}")
        f.reg(line, TASK)
        notify = False
        if name != "hnd":
            f.emit(4, ["listen: hnd", "when: true"][self.d(2)])
        elif second and self.d(2):
            # a handler that notifies another one
            notify = True
            f.emit(4, "changed_when: true")
            f.emit(4, "notify: hnd2")
        if self.shape.includes and self.w([3, 1]) and not notify:
            target = self.inc_file(f, 1, "handlers")
            f.emit(4, self.mod(f"include_tasks: {os.path.basename(target)}"))
        else:
            f.emit(4, self.mod("debug:"))
            f.emit(6, f"msg: handler{p}")


def generate(ch: Chooser, root: str, shape: Shape) -> Playbook:
    return Gen(ch, root, shape).run()
