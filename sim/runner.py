"""Runs scenarios over many seeds, minimises failures, writes evidence."""

from __future__ import annotations

import gc
import hashlib
import json
import os
import re
import select
import shutil
import signal
import sys
import time
import traceback
import typing as t

from . import env as E
from . import sync
from .choice import Chooser

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHILD_WALL = 100.0
REAL = ["ansibug debug adapter (DAServer, DAP codec)", "ansibug MPQueue / SocketHelper / cancellation",
        "ansibug debuggee, callback, strategy and exec code", "ansible-core CLI, executor, strategy, templating, action plugins",
        "pickle, json, logging, tempfile, subprocess argument handling", "the generated launch script (run by /bin/sh)"]
STUB = ["thread scheduling, locks, conditions, queues (simulated)", "sockets, pipes, select/poll, DNS (simulated kernel)",
        "clock and timers (virtual)", "ansible worker processes (threads of the simulation with drawn durations)",
        "fork/exec/exit/signals of the processes (simulated processes)", "`ansible config dump` (canned)", "the DAP client and its terminal"]

real_time = sync.real_time


class Outcome(t.TypedDict, total=False):
    seed: int
    scenario: str
    viol: list[list[t.Any]]
    counts: dict[str, int]
    steps: int
    switches: int
    preempts: int
    sim_s: float
    faults: dict[str, int]
    sched: str
    trace: str
    sites: int
    cfg: str
    choices: dict[str, dict[str, int]] | None
    error: str
    text: str
    probes: list[str]


def _child(scn: t.Any, seed: int, choices: dict[str, dict[int, int]] | None, base: str, slot: str, dump: bytes,
           want: set[str] | None, verbose: bool) -> Outcome:
    gc.disable()
    ch = Chooser(seed, choices)
    out: Outcome = {"seed": seed, "scenario": scn.name}
    try:
        res = scn.run(ch, base, slot, dump, verbose)
    except E.HarnessError as e:
        out["error"] = str(e)[-3000:]
        return out
    except BaseException:
        out["error"] = traceback.format_exc()[-3000:]
        return out
    sim = res["sim"]
    viol = [list(v) for v in res["viol"]]
    if want is not None:
        viol = [v for v in viol if v[0] in want]
    out.update(
        viol=viol, counts=res["counts"], steps=sim.steps, switches=sim.switches, preempts=sim.preempts,
        sim_s=sim.now - sim.t0, faults=dict(sim.faults), sched=sim.sched_hash.hexdigest(),
        trace=sim.trace_hash.hexdigest(), sites=len(sim.sites), cfg=res.get("cfg", ""), probes=res.get("probes", []),
    )
    for k, n in sim.stall_counts.items():
        out["faults"][f"stall_{k}"] = n
    if viol or verbose:
        out["choices"] = {k: {str(i): v for i, v in m.items()} for k, m in ch.trace().items()}
    if verbose:
        out["text"] = "\n".join(sim.trace_lines or []) + "\n" + res.get("detail", "")
    return out


class Forker:
    """One forked child per run, started from the warmed up process."""

    def __init__(self, base: str, dump: bytes) -> None:
        self.base = base
        self.dump = dump

    def start(self, scn: t.Any, seed: int, choices: t.Any, slot: str, want: set[str] | None = None, verbose: bool = False) -> tuple[int, int]:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                out = _child(scn, seed, choices, self.base, slot, self.dump, want, verbose)
                data = json.dumps(out).encode()
                mv = memoryview(data)
                while mv:
                    n = os.write(w, mv)
                    mv = mv[n:]
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit_real(code)  # type: ignore[attr-defined]
        os.close(w)
        return pid, r

    def finish(self, pid: int, r: int, seed: int, deadline: float) -> Outcome:
        buf = b""
        while True:
            left = deadline - real_time()
            rd, _, _ = real_select([r], [], [], max(left, 0))
            if not rd:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(r)
                return {"seed": seed, "error": "wall clock limit of a run exceeded"}
            d = os.read(r, 1 << 16)
            if not d:
                break
            buf += d
        os.close(r)
        os.waitpid(pid, 0)
        try:
            return t.cast(Outcome, json.loads(buf))
        except ValueError:
            return {"seed": seed, "error": f"child died without a result ({len(buf)} bytes)"}

    def one(self, scn: t.Any, seed: int, choices: t.Any = None, slot: str = "w00", want: set[str] | None = None, verbose: bool = False) -> Outcome:
        pid, r = self.start(scn, seed, choices, slot, want, verbose)
        return self.finish(pid, r, seed, real_time() + CHILD_WALL)

    def many(self, scn: t.Any, jobs: list[tuple[int, t.Any]], want: set[str] | None) -> list[Outcome]:
        run = []
        for i, (seed, choices) in enumerate(jobs):
            run.append((self.start(scn, seed, choices, f"m{i:02d}", want), seed))
        return [self.finish(p, r, seed, real_time() + CHILD_WALL) for (p, r), seed in run]


real_select = select.select


class Harness:
    """The zygote: everything imported, instrumented and warmed up once."""

    def __init__(self) -> None:
        self.base = f"/dev/shm/asim-{os.getpid():07d}"
        shutil.rmtree(self.base, ignore_errors=True)
        os.makedirs(self.base)
        self.owner = os.getpid()
        self.dump = E.install_all(self.base)
        gc.collect()
        gc.freeze()
        self.fork = Forker(self.base, self.dump)

    def close(self) -> None:
        if os.getpid() == self.owner:
            shutil.rmtree(self.base, ignore_errors=True)

    # ------------------------------------------------------------------ batch

    def batch(self, plan: list[tuple[t.Any, int, int]], want: set[str] | None, workers: int, cap_s: float,
              stop_on: t.Callable[[Outcome], bool] | None) -> list[Outcome]:
        """plan: (scenario, first seed, count). Returns outcomes in plan order."""
        jobs = [(scn, s0 + i) for scn, s0, n in plan for i in range(n)]
        # interleave so that an early end still has covered every scenario
        order = sorted(range(len(jobs)), key=lambda i: (_pos(plan, i), i))
        flag = os.path.join(self.base, "stop")
        t0 = real_time()
        pids = []
        for w in range(workers):
            path = os.path.join(self.base, f"out{w:02d}")
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    with open(path, "w") as f:
                        for k in range(w, len(order), workers):
                            if os.path.exists(flag) or real_time() - t0 > cap_s:
                                break
                            scn, seed = jobs[order[k]]
                            o = self.fork.one(scn, seed, None, f"w{w:02d}", want)
                            o["job"] = order[k]  # type: ignore[typeddict-unknown-key]
                            o["scenario"] = scn.name
                            f.write(json.dumps(o) + "\n")
                            f.flush()
                            if stop_on is not None and stop_on(o):
                                open(flag, "w").close()
                except BaseException:
                    traceback.print_exc()
                    code = 1
                finally:
                    os._exit_real(code)  # type: ignore[attr-defined]
            pids.append(pid)
        for pid in pids:
            os.waitpid(pid, 0)
        outs: list[Outcome] = []
        for w in range(workers):
            with open(os.path.join(self.base, f"out{w:02d}")) as f:
                for line in f:
                    outs.append(json.loads(line))
        if os.path.exists(flag):
            os.unlink(flag)
        outs.sort(key=lambda o: order.index(o["job"]) if len(order) < 5000 else o["job"])  # type: ignore[typeddict-item]
        return outs

    # -------------------------------------------------------------- minimiser

    def minimise(self, scn: t.Any, seed: int, choices: dict[str, dict[int, int]], prop: str, sig: str, budget_s: float) -> tuple[dict[str, dict[int, int]], Outcome | None, int]:
        end = real_time() + budget_s
        tries = 0

        def fails(o: Outcome) -> bool:
            return any(v[0] == prop and v[1] == sig for v in o.get("viol", []))

        def build(entries: list[tuple[str, int, int]]) -> dict[str, dict[int, int]]:
            m: dict[str, dict[int, int]] = {}
            for s, i, v in entries:
                m.setdefault(s, {})[i] = v
            return m

        entries = [(s, i, v) for s, m in choices.items() for i, v in sorted(m.items())]
        base = self.fork.one(scn, seed, build(entries), "m00", {prop})
        if not fails(base):
            return choices, None, 1
        best = base
        # whole streams first
        groups: dict[str, list[tuple[str, int, int]]] = {}
        for e in entries:
            groups.setdefault(e[0], []).append(e)
        names = sorted(groups, key=lambda k: -len(groups[k]))
        for lo in range(0, len(names), 8):
            part = names[lo : lo + 8]
            if real_time() > end:
                break
            cands = [[e for e in entries if e[0] != nm] for nm in part]
            outs = self.fork.many(scn, [(seed, build(c)) for c in cands], {prop})
            tries += len(cands)
            ok = [nm for nm, o in zip(part, outs) if fails(o)]
            if ok:
                allgone = [e for e in entries if e[0] not in ok]
                o = self.fork.one(scn, seed, build(allgone), "m00", {prop})
                tries += 1
                if fails(o):
                    entries, best = allgone, o
                else:
                    i = part.index(ok[0])
                    entries, best = cands[i], outs[i]
        # then chunks, ever smaller
        size = max(1, len(entries) // 2)
        while size >= 1 and real_time() < end and entries:
            pos = 0
            progress = False
            while pos < len(entries) and real_time() < end:
                cands = []
                for k in range(8):
                    a = pos + k * size
                    if a >= len(entries):
                        break
                    cands.append(entries[:a] + entries[a + size :])
                outs = self.fork.many(scn, [(seed, build(c)) for c in cands], {prop})
                tries += len(cands)
                hit = next((i for i, o in enumerate(outs) if fails(o)), None)
                if hit is None:
                    pos += size * len(cands)
                else:
                    entries, best = cands[hit], outs[hit]
                    pos += size * hit
                    progress = True
            if not progress or size == 1:
                if size == 1 and not progress:
                    break
            size = max(1, size // 2) if size > 1 else (1 if progress else 0)
        # the replay has to be the last word
        final = self.fork.one(scn, seed, build(entries), "m00", {prop})
        return build(entries), final if fails(final) else best, tries


def _pos(plan: list[tuple[t.Any, int, int]], i: int) -> float:
    k = i
    for _, _, n in plan:
        if k < n:
            return k / max(n, 1)
        k -= n
    return 1.0


# --------------------------------------------------------------------- findings


def load_known() -> list[dict[str, t.Any]]:
    path = os.path.join(HERE, "known_findings.json")
    try:
        with open(path) as f:
            return t.cast(list[dict[str, t.Any]], json.load(f)["findings"])
    except FileNotFoundError:
        return []


def known_for(v: list[t.Any], known: list[dict[str, t.Any]]) -> dict[str, t.Any] | None:
    for k in known:
        if k.get("state") == "open" and k["property"] == v[0] and re.search(k["sig"], v[1]) and re.search(k.get("text", ""), v[2]):
            return k
    return None


# ------------------------------------------------------------------------ check


def run_check(prop: str, tier: str, seed: int, spec: t.Any, workers: int = 0) -> int:
    t0 = real_time()
    workers = workers or min(8, os.cpu_count() or 1)
    known = load_known()
    h = Harness()
    try:
        return _run_check(h, prop, tier, seed, spec, workers, known, t0)
    finally:
        h.close()


def _run_check(h: Harness, prop: str, tier: str, seed: int, spec: t.Any, workers: int, known: list[dict[str, t.Any]], t0: float) -> int:
    plan = spec.plan(prop, tier, seed)
    cap = spec.cap(tier)

    def fresh(o: Outcome) -> list[list[t.Any]]:
        return [v for v in o.get("viol", []) if known_for(v, known) is None]

    t1 = real_time()
    outs = h.batch(plan, {prop}, workers, cap, lambda o: bool(fresh(o)))
    t2 = real_time()
    errors = [o for o in outs if o.get("error")]
    good = [o for o in outs if not o.get("error")]
    bad = [o for o in good if fresh(o)]
    seen_known: dict[str, dict[str, t.Any]] = {}
    for o in good:
        for v in o.get("viol", []):
            k = known_for(v, known)
            if k is not None:
                seen_known[k["id"]] = k
    rc = 0
    for k in known:
        if k.get("state") == "open" and k["property"] == prop:
            print(f"KNOWN-FINDING: property={prop} {k['what']}" + ("" if k["id"] in seen_known else " (not met in this run)"))
    replay_note = ""
    if bad:
        rc = 1
        o = bad[0]
        v = fresh(o)[0]
        scn = next(s for s, _, _ in plan if s.name == o["scenario"])
        choices = {k: {int(i): x for i, x in m.items()} for k, m in (o.get("choices") or {}).items()}
        small, fin, tries = h.minimise(scn, o["seed"], choices, prop, v[1], 60.0 if tier == "quick" else 200.0)
        n0 = sum(len(m) for m in choices.values())
        n1 = sum(len(m) for m in small.values())
        fv = v
        if fin is not None:
            fv = next(x for x in fin["viol"] if x[0] == prop and x[1] == v[1])
        path = write_replay(prop, scn.name, o["seed"], small, fv, fin["trace"] if fin else o["trace"])
        replay_note = path
        print(f"{fv[1]}: {fv[2]}")
        print(f"seed {o['seed']} scenario {scn.name}; {n0} non-default choices, minimised to {n1} in {tries} runs"
              + ("" if fin else " (the recorded choices alone did not reproduce it)"))
        for x in sorted({x[1] for b in bad for x in fresh(b)}):
            print(f"  seen: {x}")
        print(f"VIOLATION property={prop} replay={path}")
    total = sum(n for _, _, n in plan)
    if errors:
        for o in errors[:3]:
            print(f"harness error, seed {o.get('seed')} scenario {o.get('scenario')}: {o['error'][-1500:]}", file=sys.stderr)
        if rc == 0 and len(errors) > max(1, len(outs) // 200):
            print(f"ERROR {len(errors)} of {len(outs)} runs failed in the harness", file=sys.stderr)
            rc = 2
    if rc == 0 and len(good) < max(1, total // 4):
        print(f"ERROR only {len(good)} of {total} runs were done in time", file=sys.stderr)
        rc = 2
    write_evidence(prop, tier, seed, spec, plan, good, errors, bad, t2 - t1, real_time() - t0, replay_note, workers)
    runs_h = len(good) / max(t2 - t1, 1e-9) * 3600
    print(f"{prop} {tier}: {len(good)} simulated runs ({runs_h:.0f}/h), {sum(o['sim_s'] for o in good) / 3600:.2f} simulated hours, "
          f"{len({o['sched'] for o in good})} distinct schedules, {len(bad)} violating, {len(errors)} harness errors, {real_time() - t0:.0f}s")
    return rc


def write_replay(prop: str, scenario: str, seed: int, choices: dict[str, dict[int, int]], v: list[t.Any], trace: str) -> str:
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    body = {
        "property": prop, "scenario": scenario, "seed": seed, "signature": v[1], "text": v[2], "trace": trace,
        "choices": {k: {str(i): x for i, x in m.items()} for k, m in sorted(choices.items())},
    }
    data = json.dumps(body, indent=1)
    name = f"{prop}-{hashlib.blake2b(data.encode(), digest_size=5).hexdigest()}.json"
    path = os.path.join(d, name)
    with open(path, "w") as f:
        f.write(data)
    return path


def run_replay(path: str, spec: t.Any, verbose: bool) -> int:
    with open(path) as f:
        r = json.load(f)
    h = Harness()
    try:
        scn = spec.scenario(r["scenario"])
        choices = {k: {int(i): v for i, v in m.items()} for k, m in r["choices"].items()}
        o = h.fork.one(scn, r["seed"], choices, "m00", None, verbose)
        if o.get("error"):
            print(o["error"])
            return 2
        if verbose:
            print(o.get("text", ""))
        for v in o["viol"]:
            print(f"{v[0]} {v[1]}: {v[2]}")
        hit = [v for v in o["viol"] if v[1] == r["signature"]]
        same = o["trace"] == r["trace"]
        print(f"signature {'reproduced' if hit else 'NOT reproduced'}, execution {'identical' if same else 'different'} (trace {o['trace']})")
        if hit:
            print(f"VIOLATION property={r['property']} replay={path}")
            return 1
        return 0
    finally:
        h.close()


def write_evidence(prop: str, tier: str, seed: int, spec: t.Any, plan: t.Any, good: list[Outcome], errors: list[Outcome],
                   bad: list[Outcome], search_s: float, wall_s: float, replay: str, workers: int) -> None:
    counts: dict[str, int] = {}
    faults: dict[str, int] = {}
    frun: dict[str, int] = {}
    scen: dict[str, int] = {}
    probes: dict[str, int] = {}
    for o in good:
        for k, n in o["counts"].items():
            counts[k] = counts.get(k, 0) + n
        for k, n in o["faults"].items():
            faults[k] = faults.get(k, 0) + n
            frun[k] = frun.get(k, 0) + 1
        for p in o.get("probes", []):
            probes[p] = probes.get(p, 0) + 1
        scen[o["scenario"]] = scen.get(o["scenario"], 0) + 1
    keys = spec.nontrivial(prop)
    nontriv = [o for o in good if any(o["counts"].get(k) for k in keys)] if keys else good
    distinct = {(o["scenario"], o["sched"], o["trace"]) for o in nontriv}
    names = {2: "stall_1ms", 3: "stall_100ms", 4: "stall_2s", 5: "stall_30s"}
    for d in (faults, frun):
        for k, nm in names.items():
            if f"stall_{k}" in d:
                d[nm] = d.pop(f"stall_{k}")
    samples = [
        {"seed": o["seed"], "scenario": o["scenario"], "config": o.get("cfg", ""), "steps": o["steps"], "switches": o["switches"],
         "preemptions": o["preempts"], "simulated_s": round(o["sim_s"], 2), "faults": o["faults"], "schedule": o["sched"]}
        for o in (nontriv[:3] + nontriv[-2:])
    ]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": len(good),
            "distinct_nontrivial": len(distinct),
            "rule": "each run is generated from one integer seed (workload, schedule, delays, faults); it is non-trivial if the oracle of this "
                    f"property made at least one decision of the kinds {sorted(keys)}, and distinct by its whole context switch sequence and event trace",
            "samples": samples,
            "runs_per_hour": round(len(good) / max(search_s, 1e-9) * 3600),
            "seeds": {s.name: [s0, s0 + n - 1] for s, s0, n in plan},
            "simulated_seconds": round(sum(o["sim_s"] for o in good), 1),
            "scheduling_steps": sum(o["steps"] for o in good),
            "context_switches": sum(o["switches"] for o in good),
            "preemptions_injected": sum(o["preempts"] for o in good),
            "distinct_interleavings": len({o["sched"] for o in good}),
            "faults_injected": faults,
            "runs_with_fault": frun,
            "oracle_decisions": counts,
            "probes_hit_in_runs": probes,
            "runs_per_scenario": scen,
            "harness_errors": len(errors),
            "workers": workers,
            "real_components": REAL + spec.extra_real(prop),
            "simulated_components": STUB,
        },
        "assumptions": [
            "the simulated kernel objects behave like Linux for the calls used (checked against real sockets by `check selftest`)",
            "context switches between ansibug source lines and at every simulated system call; not inside a line or in C code",
            "worker processes are threads of the simulation sharing memory with the strategy through copies of task and variables",
        ],
        "wall_s": round(wall_s, 1),
        "violations": len(bad),
    }
    if replay:
        ev["coverage"]["replay"] = replay  # type: ignore[index]
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, f".{prop}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(d, f"{prop}.json"))


del time
