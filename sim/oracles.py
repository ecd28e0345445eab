"""Judges a finished debug session: what happened against what had to happen.

Everything here works on the recorded history of one run and on the model of
the generated playbook; nothing is taken from the code under test.
"""

from __future__ import annotations

import ast
import copy
import re
import typing as t

from . import pbgen
from .kernel import Event
from .session import COND_FN, BpSpec, Session, Stop

INF = 1 << 60


class Violation(t.NamedTuple):
    prop: str
    sig: str
    text: str
    n: int


class Window:
    """One host about to run one task."""

    __slots__ = ("host", "uuid", "path", "line", "name", "action", "chain", "handler", "n1", "n2", "gen", "tid", "stop", "meta",
                 "kind", "xstop", "end")

    def __init__(self, ev: Event, n1: int, gen: int) -> None:
        d = ev.data
        self.host: str = d["host"]
        self.uuid: str = d["uuid"]
        self.path: str = d["path"]
        self.line: int = d["line"]
        self.name: str = d["name"]
        self.action: str = d["action"].rpartition(".")[2]
        self.chain: list[tuple[str, str, int, bool, bool]] = d["chain"]
        self.handler: bool = d.get("handler", False)
        self.meta = d.get("meta")
        self.kind = ev.kind
        self.n1 = n1
        self.n2 = ev.n
        self.gen = gen
        self.tid = 0
        self.stop: dict[str, t.Any] | None = None
        self.xstop: dict[str, t.Any] | None = None
        self.end: Event | None = None

    @property
    def n_d(self) -> int:
        return self.stop["_n"] if self.stop else self.n2

    @property
    def parent(self) -> str | None:
        return self.chain[0][0] if self.chain else None

    def uuids(self) -> set[str]:
        return {c[0] for c in self.chain}

    def is_include(self) -> bool:
        return self.action in INCLUDES


RESUMES = ("continue", "next", "stepIn", "stepOut")
INCLUDES = {"include_tasks", "include_role"}


def per_host(hist: list[Event], proc: str) -> dict[str, list[tuple[t.Any, ...]]]:
    out: dict[str, list[tuple[t.Any, ...]]] = {}
    for ev in hist:
        if not ev.who.startswith(proc + "/"):
            continue
        d = ev.data
        if ev.kind == "task.end":
            out.setdefault(d["host"], []).append((d["path"], d["line"], d["status"], d["msg"], d["args"], d["item_msgs"]))
        elif ev.kind == "meta.start":
            out.setdefault(d["host"], []).append((d["path"], d["line"], "meta", d["meta"]))
    return out


class Judge:
    def __init__(self, s: Session) -> None:
        self.s = s
        self.sim = s.sim
        self.c = s.c
        self.hist = s.sim.history
        self.v: list[Violation] = []
        self.counts: dict[str, int] = {}
        self.ans = s.env.playbooks[0] if s.env.playbooks else None
        self.windows: list[Window] = []
        self.exit_n: dict[str, int] = {}
        for ev in self.hist:
            if ev.kind == "proc.exit":
                self.exit_n.setdefault(ev.data["proc"], ev.n)
        self.cut = self._cut()
        self.pb_started = any(e.kind == "playbook.start" for e in self.hist)

    # ---------------------------------------------------------------- helpers

    def bad(self, prop: str, sig: str, text: str, n: int = -1) -> None:
        self.v.append(Violation(prop, f"{prop}:{sig}", text, n))
        if self.s.mapped and (prop, sig) in (("C10", "missed"), ("C14", "verification"), ("C09", "location"), ("C09", "extra"), ("C16", "stack")):
            # the client only knows mapped paths
            self.v.append(Violation("C24", f"C24:{sig}", text, n))
        if self.s.poke_log and (prop, sig) in (("C04", "behaviour"), ("C04", "exit-code"), ("C04", "crash"), ("C10", "missed"),
                                               ("C13", "missed"), ("C13", "extra"), ("C09", "extra")):
            # what a concurrent request must not do
            self.v.append(Violation("C11", f"C11:{sig}", text, n))

    def count(self, key: str, k: int = 1) -> None:
        self.counts[key] = self.counts.get(key, 0) + k

    def _cut(self) -> int:
        """History index after which stops are no longer owed."""
        s = self.s
        ns = [INF]
        if s.end_fired >= 0:
            ns.append(s.end_fired)
        for seq in (s.terminate_seq, s.disconnect_seq):
            if seq in self.c.sent:
                ns.append(self.c.sent[seq]["_n"])
        ns.append(self.exit_n.get("da", INF))
        ns.append(self.exit_n.get("ans", INF))
        term = self.c.find_event("terminated")
        if term:
            ns.append(term["_n"])
        return min(ns)

    # -------------------------------------------------------------------- all

    def run(self) -> list[Violation]:
        s = self.s
        self.liveness()
        self.protocol()
        self.build()
        if self.ans is not None:
            self.transparency()
        if s.started_ok or s.no_wait:
            self.threads()
            self.stops()
            self.exceptions()
            self.breakpoints()
            self.inspection()
            self.modifications()
        self.crashes()
        return self.v

    # --------------------------------------------------------------- liveness

    def end_prop(self) -> str:
        s = self.s
        if s.end_fired < 0:
            return "C07"
        return {
            "natural": "C07", "sigint_ans": "C07", "kill_ans": "C07", "disconnect": "C05", "kill_da": "C05", "reset": "C05",
            "terminate": "C06", "disconnect_term": "C06", "vanish": "C08", "vanish_stdin": "C08", "vanish_stdout": "C08",
        }[s.end]

    def liveness(self) -> None:
        s = self.s
        prop = self.end_prop()
        self.count("ends." + s.end)
        if self.sim.ended == "step-cap":
            self.bad(prop, "livelock", "the system keeps running without getting anywhere")
            return
        if self.sim.ended != "quiescent":
            return
        alive = [p.name for p in self.sim.procs if p.alive and p.name in ("da", "ans", "terminal", "cleanup")]
        waiting = False
        if "ans" in alive and s.mode != "launch" and not s.started_ok and any(k.state == "listening" for k in s.env.net.all):
            # nobody ever attached: it goes on waiting for a debugger
            alive.remove("ans")
            waiting = True
        if alive:
            why = [f"{th.proc.name}/{th.name}: {th.why}" for th in self.sim.threads if th.proc.name in alive and th.state == 2]
            what = "+".join(a for a in alive if a in ("da", "ans")) or "+".join(alive)
            self.bad(prop, f"hang-{what}", f"end={s.end} ({s.trigger}) mode={s.mode}: never ends: {why}")
            return
        fire_t = self.hist[s.end_fired].t if s.end_fired >= 0 else None
        residue = s.env.residue()
        killed = s.end_fired >= 0 and s.end in ("kill_da", "kill_ans")
        if residue and s.end_fired >= 0 and s.end == "sigint_ans":
            if [e for e in self.hist[: s.end_fired] if e.kind == "playbook.end"]:
                residue = []  # interrupted while the interpreter was cleaning up
            for e in self.hist:
                st = e.data["stack"] if e.kind == "interrupt" else []
                if "v2_playbook_on_start" in st and "wait_for_config_done" not in st:
                    residue = []  # interrupted while the debugger was set up
        if residue and not killed and not waiting:
            self.bad(prop, "residue", f"end={s.end} ({s.trigger}) mode={s.mode}: left behind {residue}")
        if s.end_fired < 0 or s.end in ("natural", "sigint_ans"):
            self.natural()
        if fire_t is None:
            return
        if s.end in ("vanish", "vanish_stdin", "vanish_stdout"):
            self.count("c08.vanished")
            n = self.exit_n.get("da")
            if n is not None:
                dt = self.hist[n].t - fire_t
                if dt > s.prof.connect_timeout + 120 + self.sim.stalled:
                    self.bad("C08", "slow-exit", f"adapter outlived its client by {dt:.0f}s ({s.end}, {s.trigger})")
        if s.end in ("terminate", "disconnect_term"):
            self.terminate(fire_t)
        if s.end in ("disconnect", "kill_da", "reset"):
            self.count("c05.lost")

    def natural(self) -> None:
        c, s = self.c, self.s
        if not s.started_ok or self.exit_n.get("ans") is None:
            return
        terms = [e for e in c.events if e["event"] == "terminated"]
        self.count("c07.finished")
        if len(terms) != 1:
            self.bad("C07", "terminated-count", f"{len(terms)} terminated events after the playbook ended by itself")
            return
        n = terms[0]["_n"]
        after = [m for m in c.msgs if m["_n"] > n and m.get("type") != "response"]
        if after:
            self.bad("C07", "after-terminated", f"after the terminated event the client still got {after[0]}", after[0]["_n"])
        if s.end_fired >= 0 and s.end == "sigint_ans":
            return
        started = [e["body"]["threadId"] for e in c.events if e["event"] == "thread" and e["body"]["reason"] == "started"]
        exited = [e["body"]["threadId"] for e in c.events if e["event"] == "thread" and e["body"]["reason"] == "exited"]
        miss = [x for x in started if x not in exited]
        if miss:
            self.bad("C07", "lost-events", f"threads {miss} never reported as exited before the terminated event", n)

    def terminate(self, fire_t: float) -> None:
        s, c = self.s, self.c
        launched = c.resp(s.launch_seq)
        if not launched or not launched.get("success") or launched["_n"] > s.end_fired:
            return
        if s.end == "terminate":
            r = c.resp(s.terminate_seq)
            if not r or not r.get("success"):
                if self.exit_n.get("ans", INF) > c.sent.get(s.terminate_seq, {}).get("_n", INF) + 1 and r is not None:
                    self.count("c06.refused")
                return
        self.count("c06.terminated")
        ans_exit = self.exit_n.get("ans")
        if ans_exit is not None and ans_exit < s.end_fired:
            return
        sent = c.sent.get(s.terminate_seq if s.end == "terminate" else s.disconnect_seq)
        if sent is not None:
            # a thread that was stopped when the request was sent stays where it is
            released = [m["_n"] for seq, m in c.sent.items() if m["command"] in RESUMES and seq not in s.side_seqs]
            held = [e for e in c.events if e["event"] == "stopped" and e["_n"] < sent["_n"]]
            if held and not [n for n in released if n > held[-1]["_n"]]:
                self.count("c06.held")
                late = [e for e in self.hist if e.kind in ("task.start", "meta.start") and e.n > sent["_n"] and e.who.startswith("ans/")]
                if late:
                    self.bad("C06", "stopped-task-ran", f"stopped when asked to terminate ({s.trigger}), but {late[0].data['name']} "
                             f"on {late[0].data['host']} was started", late[0].n)
        limit = fire_t + 8 + self.sim.stalled + 20 * s.env.net.policy.latency
        if s.end == "terminate":
            r = c.resp(s.terminate_seq)
            late = [e for e in self.hist if e.kind == "task.start" and e.n > r["_n"]]  # type: ignore[index]
            if len(late) > 1:
                self.bad("C06", "tasks-go-on", f"{len(late)} tasks started after the terminate response ({s.trigger}): "
                         f"{[(e.data['host'], e.data['name']) for e in late[:3]]}", late[1].n)
        late = [e for e in self.hist if e.kind == "task.start" and e.t > limit and e.n > s.end_fired]
        if late:
            self.bad("C06", "tasks-go-on", f"{len(late)} tasks started more than {limit - fire_t:.0f}s after {s.end} ({s.trigger})", late[0].n)
        if ans_exit is not None and self.hist[ans_exit].t > fire_t + 60 + self.sim.stalled + 40 * s.env.net.policy.latency:
            self.bad("C06", "slow-exit", f"ansible-playbook took {self.hist[ans_exit].t - fire_t:.0f}s to exit after {s.end}")
        xs = [e for e in c.events if e["event"] == "terminated"]
        if len(xs) != 1 and not c.gone and s.end == "terminate":
            self.bad("C06", "terminated-count", f"{len(xs)} terminated events after a terminate request")

    # --------------------------------------------------------------- protocol

    def protocol(self) -> None:
        s, c = self.s, self.c
        if c.framing_error:
            self.bad("C02", "framing", c.framing_error)
        for i, m in enumerate(c.msgs):
            if m.get("seq") != i + 1:
                self.bad("C02", "seq", f"message {i + 1} carries seq {m.get('seq')}: {str(m)[:200]}", m["_n"])
                break
        self.count("c02.messages", len(c.msgs))
        da_killed = s.end_fired >= 0 and s.end == "kill_da"
        if c.eof and c.dec.buf and not da_killed and not c.framing_error and not c.deaf and s.end != "vanish_stdout":
            self.bad("C02", "truncated", f"output ends inside a message: {bytes(c.dec.buf)[:80]!r}")
        self.responses(da_killed)

    def responses(self, da_killed: bool) -> None:
        s, c = self.s, self.c
        for rseq, rs in c.responses.items():
            if rseq not in c.sent:
                self.bad("C01", "unasked", f"response to a request that was never sent: {str(rs[0])[:300]}", rs[0]["_n"])
            elif len(rs) > 1:
                self.bad("C01", "duplicate", f"{len(rs)} responses to {c.sent[rseq]['command']}#{rseq}: {str(rs)[:500]}", rs[1]["_n"])
            elif rs[0].get("command") != c.sent[rseq]["command"]:
                self.bad("C01", "command", f"response to {c.sent[rseq]['command']}#{rseq} names {rs[0].get('command')}", rs[0]["_n"])
        self.count("c01.responses", sum(len(x) for x in c.responses.values()))
        if s.end_fired >= 0 and s.end in ("vanish", "vanish_stdout"):
            return
        bound = INF
        if s.disconnect_seq in c.sent:
            bound = c.sent[s.disconnect_seq]["_n"]
        if s.end_fired >= 0 and (da_killed or s.end == "vanish_stdin"):
            bound = min(bound, s.end_fired)
        for seq, m in c.sent.items():
            if seq in c.responses:
                continue
            last = s.disconnect_seq == seq
            if m["_n"] > bound or (m["_n"] == bound and not last):
                continue
            if da_killed or (s.end_fired >= 0 and s.end == "vanish_stdin"):
                continue
            if not m.get("_ok"):
                # the adapter ended by itself although the client is still there
                if "da" in self.exit_n and self.exit_n["da"] < m["_n"] and not self.early_exit_ok():
                    self.bad("C01", "adapter-gone", f"{m['command']}#{seq}: the adapter has already exited", m["_n"])
                continue
            if self.early_exit_ok():
                continue
            if last:
                self.bad("C01", "no-response-disconnect", f"disconnect#{seq} was never answered ({s.end}, {s.trigger})", m["_n"])
            else:
                self.bad("C01", f"no-response-{m['command']}", f"{m['command']}#{seq} was never answered (end={s.end} {s.trigger} mode={s.mode})", m["_n"])

    def early_exit_ok(self) -> bool:
        """A failed attach or launch may end the adapter after its error response."""
        s, c = self.s, self.c
        r = c.resp(s.launch_seq) if s.launch_seq else None
        return bool(r and not r.get("success") and "da" in self.exit_n)

    # ---------------------------------------------------------------- windows

    def build(self) -> None:
        """Windows, generations and the threads they belong to."""
        gen = -1
        vars_n: dict[tuple[str, str], int] = {}
        self.gen_first: list[tuple[int, str, Window]] = []
        self.gen_end: dict[int, tuple[int, int]] = {}  # gen -> (surely still alive until, surely gone after)
        self.gen_start: dict[int, int] = {}
        self.lenient_gen: set[int] = set()  # stacks unknown after refresh_inventory
        seen: set[tuple[int, str]] = set()
        last_main = -1
        cur: dict[tuple[str, str], Window] = {}
        refresh_pending = False
        self.order: list[tuple[int, str]] = []
        self.main_events: list[Event] = []
        for ev in self.hist:
            if not ev.who.startswith("ans/"):
                continue
            if ev.kind in ("task.vars", "task.start", "meta.start", "task.end", "play.start", "play.end"):
                self.main_events.append(ev)
                if refresh_pending and ev.kind in ("task.vars", "play.end"):
                    self.gen_end[gen] = (last_main, ev.n)
                    gen += 1
                    self.gen_start[gen] = ev.n
                    self.lenient_gen.add(gen)
                    refresh_pending = False
            if ev.kind == "play.start":
                gen += 1
                self.gen_start[gen] = ev.n
            elif ev.kind == "play.end":
                self.gen_end[gen] = (last_main, ev.n)
            elif ev.kind == "task.vars":
                vars_n[(ev.data["host"], ev.data["uuid"])] = ev.n
            elif ev.kind in ("task.start", "meta.start"):
                key = (ev.data["host"], ev.data["uuid"])
                w = Window(ev, vars_n.get(key, ev.n), gen)
                cur[key] = w
                self.windows.append(w)
                if (gen, w.host) not in seen:
                    seen.add((gen, w.host))
                    self.gen_first.append((gen, w.host, w))
                last_main = ev.n
                if w.meta == "refresh_inventory":
                    refresh_pending = True
            elif ev.kind == "task.end":
                w2 = cur.get((ev.data["host"], ev.data["uuid"]))
                if w2 is not None:
                    w2.end = ev
                if not (0 <= self.s.end_fired < ev.n or self.s.pb.aborts):
                    # a playbook that is told to leave doesn't wait for its workers
                    last_main = ev.n
        self.vars_n = vars_n
        # the order in which hosts of a generation come up
        self.started = [e for e in self.c.events if e["event"] == "thread" and e["body"]["reason"] == "started"]
        self.tid_of: dict[tuple[int, str], int] = {}
        self.host_of: dict[int, str] = {}
        self.gen_of_tid: dict[int, int] = {}
        for (g, h, _), e in zip(self.gen_first, self.started):
            tid = e["body"]["threadId"]
            self.tid_of[(g, h)] = tid
            self.host_of[tid] = h
            self.gen_of_tid[tid] = g
        for w in self.windows:
            w.tid = self.tid_of.get((w.gen, w.host), 0)
        # stops that belong to windows
        self.stopped = [e for e in self.c.events if e["event"] == "stopped"]
        for e in self.stopped:
            if e["body"].get("reason") == "exception" or e["_n"] > self.cut:
                continue  # a stop that was on its way when the session ended
            for w in self.windows:
                if w.n1 < e["_n"] < w.n2 and w.tid == e["body"].get("threadId"):
                    w.stop = e

    def over(self, n: int) -> bool:
        """The last play is over, or there is none: the playbook is leaving."""
        plays = [e for e in self.main_events if e.kind in ("play.start", "play.end")]
        return not plays or plays[-1].kind == "play.end" and plays[-1].n < n

    def next_host_event(self, host: str, n: int) -> int:
        for ev in self.main_events:
            if ev.n > n and (ev.kind == "play.end" or (ev.kind == "task.vars" and ev.data["host"] == host)):
                return ev.n
        return INF

    # ----------------------------------------------------------- transparency

    def transparency(self) -> None:
        s = self.s
        if any(not m.get("failed") for m in s.mods):
            return
        if s.end_fired >= 0 and s.end in ("terminate", "disconnect_term", "kill_ans", "sigint_ans"):
            return
        if self.sim.ended != "quiescent" or self.ans is None or self.ans.alive:
            return
        prop = "C04"
        if s.end_fired >= 0:
            prop = self.end_prop()
        ends = [e for e in self.hist if e.kind == "playbook.end"]
        if not self.pb_started:
            return
        if not ends:
            self.bad(prop, "crash", f"ansible-playbook did not reach its end: {self.ans.stderr_text.getvalue()[-600:]}")
            return
        if ends[0].data["rc"] != s.base_rc:
            self.bad(prop, "exit-code", f"exit code {ends[0].data['rc']} instead of {s.base_rc} (end={s.end} {s.trigger}): "
                     f"{s.env.arun.display[-3:]}", ends[0].n)
        a, b = per_host(s.base_hist, "baseline"), per_host(self.hist, "ans")
        self.count("c04.tasks", sum(len(x) for x in b.values()))
        for h in sorted(set(a) | set(b)):
            x, y = a.get(h, []), b.get(h, [])
            if s.pb.aborts or s.base_rc not in (0, 2, 4, 6):
                # a broken include or a missing handler aborts the run, what has been
                # queued for other hosts may get to its end or not
                k = min(len(x), len(y))
                x, y = x[:k], y[:k]
            if x != y:
                i = next((i for i in range(min(len(x), len(y))) if x[i] != y[i]), min(len(x), len(y)))
                self.bad(prop, "behaviour", f"host {h}, {i + 1}. task: {y[i] if i < len(y) else 'missing'} instead of "
                         f"{x[i] if i < len(x) else 'nothing'}")
                break

    # ---------------------------------------------------------------- threads

    def threads(self) -> None:
        s, c = self.s, self.c
        ids = [e["body"]["threadId"] for e in self.started]
        if len(set(ids)) != len(ids) or 1 in ids:
            self.bad("C15", "ids", f"thread ids are not fresh: {ids}")
        exited = [e for e in c.events if e["event"] == "thread" and e["body"]["reason"] == "exited"]
        xids = [e["body"]["threadId"] for e in exited]
        if len(set(xids)) != len(xids):
            self.bad("C15", "exited-twice", f"threads exited more than once: {xids}")
        for e in exited:
            tid = e["body"]["threadId"]
            st = [x for x in self.started if x["body"]["threadId"] == tid]
            if not st and s.end_fired >= 0 and s.end == "sigint_ans":
                continue  # interrupted between the two halves of its start
            if not st or st[0]["_n"] > e["_n"]:
                self.bad("C15", "exited-unknown", f"thread {tid} exited without having been started", e["_n"])
        complete = self.cut == (c.find_event("terminated") or {}).get("_n") or self.cut == self.exit_n.get("ans", -1)
        complete = complete and s.end_fired < 0
        owed = [(g, h, w) for g, h, w in self.gen_first]
        if complete and s.config_done_n >= 0:
            if len(self.started) != len(owed):
                self.bad("C15", "started-count", f"{len(self.started)} started events for {len(owed)} hosts coming up: "
                         f"{[(g, h) for g, h, _ in owed]}")
            if sorted(ids) != sorted(xids):
                self.bad("C15", "exited-count", f"started {sorted(ids)}, exited {sorted(xids)}")
        self.count("c15.threads", len(ids))
        if len(self.started) > len(owed) + 1:
            self.bad("C15", "started-extra", f"{len(self.started)} started events, {len(owed)} hosts came up")
        # exits only when the generation ends, and names
        for e in exited:
            tid = e["body"]["threadId"]
            g = self.gen_of_tid.get(tid)
            if g is not None and g in self.gen_end and e["_n"] < self.gen_end[g][0]:
                self.bad("C15", "exited-early", f"thread {tid} exited before its play was over", e["_n"])
        for e in self.stopped:
            tid = e["body"].get("threadId")
            if not [x for x in self.started if x["body"]["threadId"] == tid and x["_n"] < e["_n"]]:
                self.bad("C15", "stop-unstarted", f"stopped event for thread {tid} which was never started", e["_n"])
            if [x for x in exited if x["body"]["threadId"] == tid and x["_n"] < e["_n"]]:
                self.bad("C15", "stop-exited", f"stopped event for thread {tid} which has exited", e["_n"])
        for m in c.msgs:
            if m.get("type") != "response" or m.get("command") != "threads" or not m.get("success"):
                continue
            rq = c.sent.get(m["request_seq"])
            if rq is None or m["_n"] > self.cut:
                continue
            self.count("c15.lists")
            got: dict[int, str] = {}
            for x in m["body"]["threads"]:
                if x["id"] in got:
                    self.bad("C15", "list-dup", f"thread {x['id']} listed twice", m["_n"])
                got[x["id"]] = x["name"]
            if 1 not in got:
                self.bad("C15", "list-main", f"the main thread is missing from {got}", m["_n"])
            for k, (g, h, w) in enumerate(self.gen_first):
                lo, hi = self.gen_end.get(g, (INF, INF))
                tid = self.tid_of.get((g, h))
                if w.n2 < rq["_n"] and lo > m["_n"] and tid is not None and got.get(tid) != h:
                    self.bad("C15", "list-missing", f"host {h} (thread {tid}) is missing from {got}", m["_n"])
            for tid, name in got.items():
                if tid == 1:
                    continue
                h2 = self.host_of.get(tid)
                if h2 is None:
                    continue
                if h2 != name:
                    self.bad("C15", "list-name", f"thread {tid} is {h2} but listed as {name}", m["_n"])
                g = self.gen_of_tid[tid]
                w = next(w for gg, h, w in self.gen_first if (gg, h) == (g, h2))
                lo, hi = self.gen_end.get(g, (INF, INF))
                if w.n1 > m["_n"] or hi < rq["_n"]:
                    self.bad("C15", "list-extra", f"thread {tid} ({name}) is not alive but listed", m["_n"])

    # ------------------------------------------------------------------ stops

    def versions(self, path: str, n1: int, n2: int) -> list[list[BpSpec]]:
        """Breakpoint lists of path that may be in force somewhere in [n1, n2]."""
        vs = self.s.bp_versions.get(path, [])
        out: list[list[BpSpec]] = []
        c = self.c

        def done(seq: int) -> int:
            r = c.resp(seq)
            return r["_n"] if r else INF

        if not vs or done(vs[0][0]) > n1:
            out.append([])
        for i, (seq, bps) in enumerate(vs):
            if c.sent[seq]["_n"] >= n2:
                break
            if i + 1 < len(vs) and done(vs[i + 1][0]) <= n1:
                continue
            out.append(bps)
        return out

    def filters(self, n1: int, n2: int) -> list[list[str]]:
        vs = self.s.filter_versions
        c = self.c
        out: list[list[str]] = []

        def done(seq: int) -> int:
            r = c.resp(seq)
            return r["_n"] if r else INF

        if not vs or done(vs[0][0]) > n1:
            out.append([])
        for i, (seq, f) in enumerate(vs):
            if c.sent[seq]["_n"] >= n2:
                break
            if i + 1 < len(vs) and done(vs[i + 1][0]) <= n1:
                continue
            out.append(f)
        return out

    def covers(self, path: str, b: BpSpec, line: int) -> bool:
        f = self.s.pb.files.get(path)
        if f is None:
            return False
        start, end, _ = f.expect(b.line)
        return start == line and start in f.regs

    def bp_hits(self, w: Window) -> tuple[bool, bool]:
        """(must, may) a breakpoint stop this window."""
        f = self.s.pb.files.get(w.path)
        if f is None or not w.path:
            return False, False
        kind = f.regs.get(w.line)
        vs = self.versions(w.path, w.n1, w.n_d)
        hit = []
        for bps in vs:
            hit.append(any(self.covers(w.path, b, w.line) and (b.cond is None or COND_FN[b.cond](w.host)) for b in bps))
        may = any(hit)
        must = all(hit) and kind == pbgen.TASK
        if kind is None or kind == pbgen.PLAY:
            # tasks that have no line of their own
            may = any(self.overlaps(w.path, b, w.line) for bps in vs for b in bps)
        return must, may

    def overlaps(self, path: str, b: BpSpec, line: int) -> bool:
        f = self.s.pb.files[path]
        start, end, _ = f.expect(b.line)
        return start <= line <= max(end, start) or b.line == line

    def stops(self) -> None:
        s, c = self.s, self.c
        by_ev = {id(st.ev): st for st in s.stops}
        state: dict[str, tuple[str, t.Any]] = {}  # host -> ("cont"|"over"|"in"|"out", ref)
        # every stop that the client answered, in order of its resume
        pend = [st for st in s.stops if st.resume is not None]
        matched: set[int] = set()
        timeline: list[tuple[int, int, t.Any]] = []
        for w in self.windows:
            timeline.append((w.n2, 1, w))
        for st in pend:
            timeline.append((st.resume[1], 0, st))  # type: ignore[index]
        for g, n0 in self.gen_start.items():
            timeline.append((n0, 2, g))
        for seq, tid in s.side_seqs.items():
            r = c.resp(seq)
            if tid in self.host_of and (r is None or r.get("success")):
                timeline.append((c.sent[seq]["_n"], 3, tid))
            if tid and r is not None and not r.get("success") and r["_n"] < self.cut:
                self.bad("C12", "resume-refused", f"continue of thread {tid} was refused: {str(r)[:300]}", r["_n"])
        timeline.sort(key=lambda x: (x[0], x[1]))
        lenient: set[str] = set()
        for n, k, obj in timeline:
            if k == 0:
                self.apply_resume(obj, state, lenient)
                continue
            if k == 3:
                state[self.host_of[obj]] = ("cont", None)
                continue
            if k == 2:
                state.clear()
                lenient.clear()
                continue
            w = t.cast(Window, obj)
            if w.stop is not None:
                matched.add(id(w.stop))
            # the decision was taken before the stop was answered
            if w.stop is not None:
                st = by_ev.get(id(w.stop))
                # automaton state before the resume that followed this stop
                pre = getattr(st, "pre_state", None) if st else None
                self.judge(w, pre if pre is not None else state.get(w.host, ("cont", None)), w.host in lenient)
            elif w.n_d < self.cut:
                self.judge(w, state.get(w.host, ("cont", None)), w.host in lenient)
        # stops that match no window
        for e in self.stopped:
            if e["body"].get("reason") == "exception" or id(e) in matched:
                continue
            if e["_n"] > self.cut:
                continue
            tid = e["body"].get("threadId")
            later = [w for w in self.windows if w.n2 > e["_n"] and (w.tid == tid or not tid)]
            if later and tid in self.host_of:
                self.bad("C09", "stray-stop", f"stopped event {e['body']} does not precede a task of that thread", e["_n"])
        self.frozen()
        self.locations()

    def apply_resume(self, st: Stop, state: dict[str, t.Any], lenient: set[str]) -> None:
        host = self.host_of.get(st.tid or 0) or st.host or "?"
        w = next((w for w in self.windows if w.stop is st.ev), None)
        if w is None:
            # an exception stop: the task that just ended
            ends = [x for x in self.windows if x.host == host and x.end is not None and x.end.n < st.n]
            w = ends[-1] if ends else None
        st.pre_state = state.get(host, ("cont", None))  # type: ignore[attr-defined]
        assert st.resume is not None
        cmd, n, single = st.resume
        r = self.c.resp(st.resume_tid or -1)
        if r is not None and not r.get("success"):
            lenient.add(host)
            if cmd == "continue" and not single:
                # all of them may have been let go before the answer was lost
                lenient.update(h for h in self.host_of.values() if h)
            if n < self.cut and r["_n"] < self.cut:
                self.bad("C12", "resume-refused", f"{cmd} of stopped thread {st.tid} was refused: {str(r)[:300]}", r["_n"])
            return
        lenient.discard(host)
        if cmd == "continue":
            asked = st.resume_args.get("singleThread")
            told = None if r is None else (r.get("body") or {}).get("allThreadsContinued", True)
            if asked is not None and told is not None and told != (not asked):
                self.bad("C12", "continued-flag", f"continue with singleThread={asked} answered allThreadsContinued={told}", r["_n"])
            if asked is False or (asked is None and told):
                state.clear()
                lenient.clear()
            elif asked is None and told is None:
                lenient.update(h for h in self.host_of.values() if h)
            state[host] = ("cont", None)
        elif w is None:
            lenient.add(host)
        elif cmd == "next":
            state[host] = ("over", w)
        elif cmd == "stepIn":
            state[host] = ("in", w) if w.is_include() else ("over", w)
        elif cmd == "stepOut":
            ref = next((c for c in w.chain if c[3]), None)
            state[host] = ("out", ref)

    def step(self, w: Window, st: tuple[str, t.Any]) -> tuple[bool, bool]:
        """(must, may) a step stop this window."""
        kind, ref = st
        if kind == "cont":
            return False, False
        if kind == "in":
            return True, True
        if kind == "over":
            p = ref.parent
            if w.parent == p:
                return True, True
            if p is None:
                deeper = any(c[3] for c in w.chain)
            else:
                idx = next((i for i, c in enumerate(w.chain) if c[0] == p), None)
                deeper = idx is not None and any(c[3] for c in w.chain[:idx])
            if ref.is_include() and ref.uuid in w.uuids():
                deeper = True
            return False, not deeper
        # out
        if ref is None:
            return False, True
        if ref[0] in w.uuids():
            return False, False
        return True, True

    def judge(self, w: Window, st: tuple[str, t.Any], lenient: bool) -> None:
        if not w.path:
            if w.stop is not None and not lenient:
                pass
            return
        if w.gen in self.lenient_gen and False:
            return
        smust, smay = self.step(w, st)
        bmust, bmay = self.bp_hits(w)
        if st[0] == "out":
            bmust = bmay = False
            if st[1] is None:
                bmay = True
        if lenient:
            smust = bmust = False
            smay = bmay = True
        reg = self.s.pb.files.get(w.path)
        plain = reg is not None and reg.regs.get(w.line) == pbgen.TASK
        if not plain:
            smust = False
        where = f"{w.path.rsplit('/', 1)[-1]}:{w.line} ({w.name}) on {w.host}"
        if smust or smay:
            self.count("c12.decisions")
        if bmust:
            self.count("c10.hits")
        elif reg is not None and self.s.bp_versions.get(w.path):
            self.count("c10.misses")
        if w.stop is None:
            if w.n_d >= self.cut:
                return
            if bmust:
                self.bad("C10", "missed", f"breakpoint missed before {where}", w.n2)
            if smust:
                self.bad("C12", "missed", f"{self.sdesc(st)} did not stop before {where}", w.n2)
            return
        body = w.stop["body"]
        reason = body.get("reason")
        n = w.stop["_n"]
        self.count("c09.stops")
        if reason == "step":
            if not smay:
                self.bad("C12", "extra", f"step stop before {where} although {self.sdesc(st)}", n)
        elif reason == "breakpoint":
            if not bmay:
                sig = "ignored-stepout" if st[0] == "out" else "extra"
                prop = "C12" if st[0] == "out" else "C09"
                self.bad(prop, sig, f"breakpoint stop before {where}: no such breakpoint with a true condition", n)
            else:
                self.hit_ids(w, body, where, n)
            if smust and not bmust and not lenient and False:
                pass
        else:
            self.bad("C09", "reason", f"stopped event with reason {reason!r} before {where}", n)

    def sdesc(self, st: tuple[str, t.Any]) -> str:
        kind, ref = st
        if kind == "cont":
            return "the thread was continuing"
        if kind == "out":
            return f"stepping out of {ref[1].rsplit('/', 1)[-1] + ':' + str(ref[2]) if ref else 'nothing'}"
        return f"stepping {kind} from line {ref.line} ({ref.name})"

    def hit_ids(self, w: Window, body: dict[str, t.Any], where: str, n: int) -> None:
        ids = body.get("hitBreakpointIds") or []
        if not ids:
            self.bad("C09", "no-hit-id", f"breakpoint stop before {where} names no breakpoint", n)
            return
        for seq, bps in self.s.bp_versions.get(w.path, []):
            r = self.c.resp(seq)
            if not r or not r.get("success"):
                if self.c.sent[seq]["_n"] < n:
                    return  # not known which
                continue
            for spec, b in zip(bps, r["body"]["breakpoints"]):
                if b.get("id") == ids[0]:
                    reg = self.s.pb.files[w.path].regs.get(w.line)
                    if reg == pbgen.TASK and not (self.covers(w.path, spec, w.line) and (spec.cond is None or COND_FN[spec.cond](w.host))):
                        self.bad("C09", "hit-id", f"breakpoint {ids[0]} ({spec}) does not apply before {where}", n)
                    return
        self.bad("C09", "hit-id", f"breakpoint {ids[0]} of the stop before {where} was never set", n)

    def frozen(self) -> None:
        """Nothing starts between a stop and its release."""
        s = self.s
        sends = sorted(
            m["_n"] for seq, m in self.c.sent.items()
            if m["command"] in ("disconnect", "terminate") or m["command"] in RESUMES and seq not in s.side_seqs
        )
        faults = [e.n for e in self.hist if e.kind in ("end.fire",)] + ([self.exit_n["da"]] if "da" in self.exit_n else [])
        ans_n = self.exit_n.get("ans", INF)
        for i, e in enumerate(self.stopped):
            n = e["_n"]
            if n > self.cut:
                break
            rel = min([x for x in sends + faults if x > n] + [INF])
            bad = [x for x in self.hist[n + 1 : min(rel, len(self.hist))]
                   if x.kind in ("task.vars", "task.start", "meta.start") and x.who.startswith("ans/")]
            self.count("c09.frozen")
            if bad:
                self.bad("C09", "ran-on", f"after {e['body'].get('description')} stop of thread {e['body'].get('threadId')}: "
                         f"{bad[0].kind} {bad[0].data.get('host')} {bad[0].data.get('name', '')}", bad[0].n)
            if i + 1 < len(self.stopped) and self.stopped[i + 1]["_n"] < rel:
                self.bad("C09", "second-stop", "another stopped event before the first was answered", self.stopped[i + 1]["_n"])
            if rel == INF and ans_n < INF and ans_n > n:
                self.bad("C09", "ran-on", "the playbook ended while it was stopped", ans_n)

    def locations(self) -> None:
        s = self.s
        for st in s.stops:
            if not st.frames or st.frames_n > self.cut:
                continue
            w = next((w for w in self.windows if w.stop is st.ev), None)
            if w is None and st.reason == "exception":
                host = self.host_of.get(st.tid or 0)
                ends = [x for x in self.windows if x.host == host and x.end is not None and x.end.n < st.n]
                w = ends[-1] if ends else None
            if w is None:
                continue
            f0 = st.frames[0]
            want = (s.cpath(w.path), w.line)
            got = ((f0.get("source") or {}).get("path"), f0.get("line"))
            if got != want:
                self.bad("C09", "location", f"stopped at {got} but the task is {want} ({w.name} on {w.host})", st.frames_n)
            if f0.get("name") != w.name:
                self.bad("C16", "frame-name", f"frame is called {f0.get('name')!r}, the task {w.name!r}", st.frames_n)
            if st.host is not None and st.host != w.host:
                self.bad("C09", "thread", f"thread {st.tid} is {st.host} but the task runs on {w.host}", st.n)
            if w.gen in self.lenient_gen:
                continue
            self.count("c16.stacks")
            chain = [c for c in w.chain if c[3]]
            if w.handler:
                # a handler runs on top of the includes of what flushed it
                before = [x for x in self.windows if x.host == w.host and x.gen == w.gen and x.n2 < w.n2 and not x.handler]
                chain = [c for c in chain if c[4]] + [c for c in (before[-1].chain if before else []) if c[3]]
            incl = [(s.cpath(c[1]), c[2]) for c in chain]
            have = [((f.get("source") or {}).get("path"), f.get("line")) for f in st.frames[1:]]
            if incl != have:
                self.bad("C16", "stack", f"stack below {w.name} is {have} instead of {incl}", st.frames_n)

    # ------------------------------------------------------------- exceptions

    def exceptions(self) -> None:
        s = self.s
        xs = [e for e in self.stopped if e["body"].get("reason") == "exception" and e["_n"] < self.cut]
        used: set[int] = set()
        by_ev = {id(st.ev): st for st in s.stops}
        for ev in self.hist:
            if ev.kind != "task.end" or not ev.who.startswith("ans/"):
                continue
            d = ev.data
            n_next = self.next_host_event(d["host"], ev.n)
            w = next((w for w in self.windows if w.end is ev), None)
            tid = w.tid if w else 0
            got = [e for e in xs if id(e) not in used and ev.n < e["_n"] < n_next and e["body"].get("threadId") == tid and tid]
            want: str | None = None
            if d["status"] == "failed" and not d["ignore"] and not d["rescued"]:
                want = "on_error"
            elif d["status"] == "unreachable" and not d["ignore_unreachable"]:
                want = "on_unreachable"
            elif d["status"] == "skipped":
                want = "on_skipped"
            n_d = got[0]["_n"] if got else min(n_next, self.cut)
            fs = self.filters(ev.n, n_d)
            must = want is not None and all(want in f for f in fs)
            may = want is not None and any(want in f for f in fs)
            where = f"{d['path'].rsplit('/', 1)[-1]}:{d['line']} on {d['host']} ({d['status']}{', rescued' if d['rescued'] else ''}{', ignored' if d['ignore'] else ''})"
            if must:
                self.count("c13.hits")
            elif s.filter_versions:
                self.count("c13.misses")
            if got:
                used.add(id(got[0]))
                if not may:
                    self.bad("C13", "extra", f"exception stop after {where} with filters {fs}", got[0]["_n"])
                st = by_ev.get(id(got[0]))
                if st and st.scopes is not None:
                    if "Module Result" not in [x["name"] for x in st.scopes]:
                        self.bad("C13", "no-result", f"no module result to inspect after {where}", got[0]["_n"])
                    res = st.vars.get("Module Result")
                    if res is not None and not d["items"]:
                        names = {v["name"]: v["value"] for v in res}
                        key = {"failed": "failed", "unreachable": "unreachable", "skipped": "skipped"}.get(d["status"])
                        if key and names.get(key) != "True":
                            self.bad("C13", "result", f"the module result shows {key}={names.get(key)} after {where}", got[0]["_n"])
            elif must and n_next < self.cut:
                self.bad("C13", "missed", f"no stop after {where} with filters {fs}", ev.n)
        for e in xs:
            if id(e) not in used and e["_n"] < self.cut and e["body"].get("threadId") in self.host_of:
                self.bad("C13", "stray", f"exception stop of thread {e['body'].get('threadId')} that follows no result", e["_n"])

    # ------------------------------------------------------------ breakpoints

    def breakpoints(self) -> None:
        s, c = self.s, self.c
        first_start: dict[str, int] = {}
        for w in self.windows:
            first_start.setdefault(w.path, w.n2)
        told: dict[int, tuple[int, dict[str, t.Any]]] = {}
        owner: dict[int, tuple[str, int]] = {}
        for path, vs in s.bp_versions.items():
            f = s.pb.files[path]
            for i, (seq, bps) in enumerate(vs):
                r = c.resp(seq)
                if not r or not r.get("success"):
                    if r is not None and r["_n"] < self.cut and s.started_ok and not self.over(r["_n"]):
                        self.bad("C11", "refused-setBreakpoints", f"setBreakpoints refused: {str(r)[:400]}", r["_n"])
                    continue
                got = r["body"]["breakpoints"]
                if len(got) != len(bps):
                    self.bad("C14", "count", f"{len(got)} breakpoints in the answer to {len(bps)}", r["_n"])
                    continue
                loaded = path == s.pb.main or first_start.get(path, INF) < c.sent[seq]["_n"]
                for spec, b in zip(bps, got):
                    if not isinstance(b.get("id"), int) or b["id"] in owner:
                        self.bad("C14", "id", f"breakpoint id {b.get('id')} is not fresh", r["_n"])
                        continue
                    told[b["id"]] = (r["_n"], b)
                    owner[b["id"]] = (path, i)
                    self.count("c14.told")
                    self.check_bp(path, f, spec, b, loaded, r["_n"])
        log: list[tuple[int, int, dict[str, t.Any]]] = [(n, i, b) for i, (n, b) in told.items()]
        for e in c.events:
            if e["event"] != "breakpoint":
                continue
            b = e["body"]["breakpoint"]
            own = owner.get(b.get("id"))
            self.count("c14.events")
            if own is None:
                continue
            path, i = own
            vs = s.bp_versions[path]
            if i + 1 < len(vs):
                nr = c.resp(vs[i + 1][0])
                if nr is not None and nr.get("success") and nr["_n"] < e["_n"]:
                    self.bad("C14", "stale-event", f"changed event for breakpoint {b['id']} which the client no longer has", e["_n"])
            log.append((e["_n"], b["id"], b))
            src = (b.get("source") or {}).get("path")
            if src != s.cpath(path):
                self.bad("C24" if s.mapped else "C14", "bp-path", f"breakpoint reported at {src} instead of {s.cpath(path)}", e["_n"])
        log.sort(key=lambda x: x[0])
        # what the client believes must be right whenever it looks: at each stop and in the end
        marks = [e["_n"] for e in self.stopped if e["_n"] < self.cut]
        if s.end_fired < 0 and c.find_event("terminated") is not None:
            marks.append(INF)
        k = 0
        now: dict[int, dict[str, t.Any]] = {}
        reported: set[int] = set()
        for mark in marks:
            while k < len(log) and log[k][0] < mark:
                now[log[k][1]] = log[k][2]
                k += 1
            for path, vs in s.bp_versions.items():
                loaded = path == s.pb.main or first_start.get(path, INF) < mark
                cur = [(i, seq, bps) for i, (seq, bps) in enumerate(vs) if c.sent[seq]["_n"] < mark]
                if not cur:
                    continue
                i, seq, bps = cur[-1]
                r = c.resp(seq)
                if not r or not r.get("success") or r["_n"] > mark:
                    continue
                for spec, b0 in zip(bps, r["body"]["breakpoints"]):
                    bid = b0.get("id")
                    if bid in now and bid not in reported:
                        self.count("c14.checked")
                        if not self.check_bp(path, s.pb.files[path], spec, now[bid], loaded, min(mark, len(self.hist) - 1),
                                             "in the end " if mark == INF else "at a stop "):
                            reported.add(bid)

    def check_bp(self, path: str, f: pbgen.FileModel, spec: BpSpec, b: dict[str, t.Any], loaded: bool, n: int, when: str = "") -> bool:
        start, end, ver = f.expect(spec.line)
        got = (b.get("line"), b.get("endLine"), b.get("verified"))
        src = (b.get("source") or {}).get("path")
        if src != self.s.cpath(path):
            self.bad("C24" if self.s.mapped else "C14", "bp-path", f"breakpoint reported at {src} instead of {self.s.cpath(path)}", n)
        if (not loaded or not f.regs) and got == (spec.line, None, False):
            return True
        if not loaded:
            # may be told anything the part of the file that is known implies
            return True
        if (start, end) == got[:2] and (ver is None or ver == got[2]):
            return True
        self.bad("C14", "verification", f"breakpoint at {path.rsplit('/', 1)[-1]}:{spec.line} is {when}told as {got}, "
                 f"the file implies {(start, end, ver)}", n)
        return False

    # ------------------------------------------------------------- inspection

    def inspection(self) -> None:
        s, c = self.s, self.c
        frame_ids: dict[int, t.Any] = {}
        refs: dict[int, int] = {}
        for st in s.stops:
            host = self.host_of.get(st.tid or 0)
            w = next((w for w in self.windows if w.stop is st.ev), None)
            x = None
            if w is None and st.reason == "exception":
                ends = [y for y in self.windows if y.host == host and y.end is not None and y.end.n < st.n]
                x = ends[-1] if ends else None
            for f in st.frames or []:
                key = ((f.get("source") or {}).get("path"), f.get("line"), f.get("name"))
                if frame_ids.setdefault(f["id"], key) != key:
                    self.bad("C16", "frame-id", f"frame id {f['id']} used for {frame_ids[f['id']]} and {key}", st.frames_n)
            mine = [r for r, who in s.ref_log if who is st]
            for r in mine:
                if r and refs.setdefault(r, st.idx) != st.idx:
                    other = s.stops[refs[r]]
                    if not (other.frames and st.frames and other.frames[0]["id"] == st.frames[0]["id"]):
                        self.bad("C16", "ref-reused", f"variables reference {r} handed out at two different stops", st.n)
            if st.n > self.cut or host is None:
                continue
            for what, r in st.stale:
                if r is None or r["_n"] > self.cut:
                    continue
                if what.startswith("fresh"):
                    self.bad("C16", what, f"a reference obtained during the stop was refused: {str(r)[:300]}", r["_n"])
                elif r.get("success"):
                    self.bad("C16", "unknown-accepted", f"{what} with an unknown reference was answered: {str(r)[:300]}", r["_n"])
                else:
                    self.count("c16.stale")
            for ref, other, n, r in st.old_refs:
                if r is None or not r.get("success") or r["_n"] > self.cut:
                    continue
                ow = next((y for y in self.windows if y.stop is other.ev), None)
                if ow is None:
                    continue
                if ow.is_include():
                    # gone once the include isn't on the stack of its host any more
                    if st.tid == other.tid and st.frames and other.frames and other.frames[0]["id"] not in {f["id"] for f in st.frames}:
                        self.bad("C16", "stale-accepted", f"reference {ref} of an include that was left was answered: {str(r)[:200]}", r["_n"])
                    continue
                nxt = next((y for y in self.windows if y.host == ow.host and y.n1 > ow.n2 and y.n2 < n), None)
                if nxt is not None:
                    self.bad("C16", "stale-accepted", f"reference {ref} of a task that is over was answered: {str(r)[:200]}", r["_n"])
                self.count("c16.stale")
            for e, r in st.evals:
                if r is None or r["_n"] > self.cut:
                    continue
                self.eval(e, r, host)
            task = w or x
            if task is None:
                continue
            for scope, vs in st.vars.items():
                vals = {v["name"]: v["value"] for v in vs}
                self.count("c16.scopes")
                if scope in ("Task Variables", "Host Variables", "Global Variables"):
                    for k, want in (("inventory_hostname", repr(host)), ("probe_h", repr("p" + host))):
                        if vals.get(k) != want:
                            self.bad("C16", "values", f"{scope} of {task.name} on {host}: {k} is {vals.get(k)} instead of {want}", st.n)
                elif scope == "Module Options" and task.action in ("debug", "fail"):
                    nat = self.message(task)
                    if nat is not None and not st.mods and not (x is not None and any(m["stop"].ev is x.stop for m in s.mods)):
                        if vals.get("msg") != repr(nat):
                            self.bad("C17" if s.mods else "C16", "values", f"Module Options of {task.name} on {host}: msg is {vals.get('msg')} "
                                     f"instead of {nat!r}", st.n)

    def eval(self, e: str, r: dict[str, t.Any], host: str) -> None:
        want = {
            "inventory_hostname": repr(host), "probe_h": repr("p" + host), "1 + 1": "2",
            "probe_h | upper": repr(("p" + host).upper()),
        }.get(e)
        self.count("c16.evals")
        if not r.get("success"):
            self.bad("C16", "eval-refused", f"evaluating {e!r} was refused: {str(r)[:300]}", r["_n"])
            return
        got = r["body"]["result"]
        if want is not None and got != want:
            self.bad("C16", "eval", f"{e!r} on {host} evaluates to {got[:200]} instead of {want}", r["_n"])
        if e == "nope_undefined" and "Undefined" not in got and "undefined" not in got:
            self.bad("C16", "eval", f"an undefined variable evaluates to {got[:200]}", r["_n"])

    # ---------------------------------------------------------- modifications

    def unchanged(self, name: str, host: str) -> list[t.Any]:
        """What a probe variable may be where nothing changed it."""
        if name == "probe_i":
            return ["i" + host]
        if name == "probe_g":
            return ["g"]
        if name == "probe_p":
            return [f"play{p}" for p in range(self.s.pb.n_plays)]
        if name == "probe_q":
            return [{"k": [f"q{p}", 1]} for p in range(self.s.pb.n_plays)]
        if name == "probe_f":
            return [None, *self.s.pb.facts.values()]
        return [None]

    def message(self, w: Window) -> t.Any:
        """What the option msg of a task is unless it is changed."""
        name = w.name.rsplit(" : ", 1)[-1]
        if name in self.s.pb.nested:
            return {"a": "x" + name.split()[0], "l": [1, w.host]}
        if name in self.s.pb.msgs:
            return self.s.pb.msgs[name].replace("%h", w.host)
        return None

    @staticmethod
    def put(base: t.Any, path: list[str], value: t.Any) -> t.Any:
        base = copy.deepcopy(base)
        x = base
        for k in path[:-1]:
            x = x[int(k) if isinstance(x, list) else k]
        x[int(path[-1]) if isinstance(x, list) else path[-1]] = value
        return base

    def ended(self, st: Stop) -> Window | None:
        """The task an exception stop is about."""
        if st.reason != "exception":
            return None
        host = self.host_of.get(st.tid or 0)
        ends = [y for y in self.windows if y.host == host and y.end is not None and y.end.n < st.n]
        return ends[-1] if ends else None

    def modifications(self) -> None:
        s, c = self.s, self.c
        opts: dict[int, t.Any] = {}  # window -> message it has to run with
        hosts: dict[tuple[str, str], list[tuple[int, int, t.Any]]] = {}
        tasks: dict[tuple[int, str], t.Any] = {}
        vague: set[tuple[int, str]] = set()  # (window, variable) the client left open
        late: set[tuple[int, str]] = set()  # changed when the task was over
        touched: set[tuple[str, int]] = set()
        names: set[str] = set()
        for m in s.mods:
            st: Stop = m["stop"]
            r = m.get("resp")
            w = next((w for w in self.windows if w.stop is st.ev), None)
            kind, name = m["kind"], m["name"]
            host = self.host_of.get(st.tid or 0) or "?"
            wx = w or self.ended(st)
            if kind.startswith("opt") and wx is not None:
                touched.add((wx.path, wx.line))
            if r is None or r["_n"] > self.cut:
                # may have been done or not
                if w is not None:
                    vague.add((id(w), name))
                hosts.setdefault((host, name), []).append((0, INF, None))
                continue
            if m.get("failed"):
                self.bad("C17", "refused", f"{kind} {name}={m['value']} refused: {str(r)[:300]}", r["_n"])
                continue
            want = self.value(m["value"], host)
            self.count("c17.mods")
            n = r["_n"]
            if "path" in m:
                self.count("c17.deep")
                if m.get("same", repr(want)) != repr(want):
                    self.bad("C17", "readback", f"{kind} {name}/{m['path']} reads back as {m['same']} instead of {want!r}", n)
                base: t.Any
                if kind == "opt_deep":
                    base = opts.get(id(w), self.message(w)) if w is not None else ast.literal_eval(m["base"])
                elif kind == "host_deep" and (host, name) in hosts:
                    base = hosts[(host, name)][-1][2]
                elif wx is not None and (id(wx), name) in tasks and (kind == "task_deep" or (host, name) not in hosts):
                    base = tasks[(id(wx), name)]
                elif before := [x for x in hosts.get((host, name), ()) if wx is None or x[0] < wx.n1]:
                    base = before[-1][2]
                else:
                    base = ast.literal_eval(m["base"])
                    if base not in self.unchanged(name, host):
                        self.bad("C17", "leak", f"{name} of {host} is shown as {base}, but was only changed elsewhere", n)
                        continue
                if repr(base) != m["base"]:
                    self.bad("C17", "shown", f"{name} is shown as {m['base']} instead of {base} before {kind} of {m['path']}", n)
                    continue
                want = self.put(base, m["path"], want)
            rb = m.get("readback")
            if rb is not None:
                if kind == "opt_remove":
                    if name in rb:
                        self.bad("C17", "readback", f"removed option {name} still shows", n)
                elif rb.get(name) != repr(want):
                    self.bad("C17", "readback", f"{kind} {name} {m.get('path', '')} reads back as {rb.get(name)} instead of {want!r}", n)
            ev = m.get("ev")
            if ev is not None and ev["_n"] < self.cut and (not ev.get("success") or ev["body"]["result"] != repr(want)):
                self.bad("C17", "evaluated", f"{kind} {name} evaluates to {str(ev.get('body') or ev)[:200]} instead of {want!r}", ev["_n"])
            if kind.startswith("opt"):
                if w is not None and w.kind == "task.start":
                    if kind == "opt_remove":
                        want = "Hello world!" if w.action == "debug" else "Failed as requested from task"
                    opts[id(w)] = want
                continue
            names.add(name)
            if kind.startswith("host"):
                hosts.setdefault((host, name), []).append((n, n, want))
            if kind in ("task", "task_deep", "host_repl"):
                if wx is not None:
                    tasks[(id(wx), name)] = want
                    vague.discard((id(wx), name))
                    if w is None:
                        late.add((id(wx), name))
            elif w is not None and (id(w), name) not in tasks:
                vague.add((id(w), name))
        for w in self.windows:
            if w.end is None or w.kind != "task.start" or w.end.n > self.cut:
                continue
            d = w.end.data
            where = f"{w.name} on {w.host}"
            if not d["items"] and d["status"] not in ("skipped", "unreachable") and w.action in ("debug", "fail") and (id(w), "msg") not in vague:
                if id(w) in opts:
                    self.count("c17.used")
                    if d["msg"] != str(opts[id(w)])[:200]:
                        self.bad("C17", "option", f"msg of {where} was changed to {opts[id(w)]!r} but it ran with {d['msg']!r}", w.end.n)
                elif (w.path, w.line) in touched:
                    self.count("c17.untouched")
                    nat = self.message(w)
                    if nat is not None and d["msg"] != str(nat)[:200]:
                        self.bad("C17", "option-leak", f"msg of {where} was not changed, but it ran with {d['msg']!r} instead of {nat!r}", w.end.n)
            for name in sorted(names):
                if (id(w), name) in vague:
                    continue
                got = d["probe"].get(name)
                hv = [x for x in hosts.get((w.host, name), ()) if x[0] < w.n1]
                if name == "probe_f" and hv and any(
                    y.host == w.host and y.name.rsplit(" : ", 1)[-1] in self.s.pb.facts and y.end is not None and hv[-1][0] < y.end.n < w.n1
                    for y in self.windows
                ):
                    hv = []  # the playbook itself has set it since
                if (id(w), name) in late:
                    continue
                if (id(w), name) in tasks:
                    self.count("c17.used")
                    if got != str(tasks[(id(w), name)]):
                        self.bad("C17", "taskvar", f"{name} was set to {tasks[(id(w), name)]!r} but {where} ran with {got}", w.end.n)
                elif hv:
                    self.count("c17.kept")
                    if hv[-1][1] < INF and got != str(hv[-1][2]):
                        self.bad("C17", "hostvar-later", f"{name} set to {hv[-1][2]!r} on {w.host}: {w.name} later ran with {got}", w.end.n)
                        return
                elif got not in [None if x is None else str(x) for x in self.unchanged(name, w.host)]:
                    self.bad("C17", "leak", f"{name} was changed for another task or host, but {where} ran with {got}", w.end.n)
                    return

    @staticmethod
    def value(expr: str, host: str) -> t.Any:
        if expr == "probe_h":
            return "p" + host
        return eval(expr, {"__builtins__": {}})  # noqa: S307 - our own literals

    # ---------------------------------------------------------------- crashes

    def crashes(self) -> None:
        s, c = self.s, self.c
        for ev in self.hist:
            if ev.kind == "thread.uncaught" and ev.who.startswith("ans/"):
                self.bad("C11", "exception", f"uncaught exception in {ev.who}: {ev.data}", ev.n)
        if self.ans is not None:
            for ev in self.hist:
                if ev.kind == "proc.uncaught" and ev.data["proc"] == "ans" and not (s.end_fired >= 0 and s.end in ("sigint_ans", "kill_ans")):
                    self.bad("C11", "exception", f"ansible-playbook died of {ev.data}: {self.ans.stderr_text.getvalue()[-500:]}", ev.n)
        # well formed requests whose answer cannot depend on the moment
        for seq, m in c.sent.items():
            r = c.resp(seq)
            if r is None or r.get("success") or r["_n"] > self.cut:
                continue
            if m["command"] in ("threads", "setExceptionBreakpoints", "configurationDone") and s.started_ok and not self.over(r["_n"]):
                self.bad("C11", f"refused-{m['command']}", f"{m['command']} refused: {str(r)[:500]}", r["_n"])


def judge(s: Session) -> tuple[list[Violation], dict[str, int]]:
    j = Judge(s)
    v = j.run()
    return v, j.counts
