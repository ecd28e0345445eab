from __future__ import annotations

import os
import subprocess
import sys
import tempfile
import typing as t

from . import runner
from .spec import SCENARIOS, Spec


def main(argv: list[str]) -> int:
    if not argv:
        print("usage: check <property> [quick|thorough] | replay FILE [-v] | run SCENARIO A-B [-v] | selftest")
        return 2
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    if argv[0] == "replay":
        return runner.run_replay(argv[1], Spec, "-v" in argv)
    if argv[0] == "setup":
        return setup()
    if argv[0] == "selftest":
        return selftest(int(argv[1]) if len(argv) > 1 else 1000)
    if argv[0] == "run":
        return explore(argv[1], argv[2], "-v" in argv, [a for a in argv[3:] if a.startswith("C")])
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    return runner.run_check(argv[0], tier, seed, Spec)


def setup() -> int:
    """Nothing to build: shows that the simulator runs here."""
    h = runner.Harness()
    try:
        o = h.fork.one(SCENARIOS["plain"], 1)
    finally:
        h.close()
    if o.get("error"):
        print(o["error"])
        return 2
    print(f"one simulated run of {o['steps']} steps, trace {o['trace']}")
    return 0


def selftest(n: int) -> int:
    """The socket model against the kernel, and that a seed is one execution."""
    bad = 0
    names = [x for x in SCENARIOS if x != "model"]
    ref: dict[str, str] = {}
    for hs, workers in (("0", "8"), ("1", "3"), ("4242", "1")):
        for name in names:
            fd, path = tempfile.mkstemp()
            os.close(fd)
            env = {k: v for k, v in os.environ.items() if k not in ("SIM_REEXEC", "PYTHONHASHSEED")}
            env.update(SIM_HASHSEED=hs, SIM_WORKERS=workers, SIM_HASHES=path)
            subprocess.run([os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "check"), "run", name, f"0-{max(2, n // 50)}"],
                           env=env, stdout=subprocess.DEVNULL, check=False)
            with open(path) as f:
                got = f.read()
            os.unlink(path)
            if ref.setdefault(name, got) != got or not got:
                print(f"{name}: the runs differ with hash seed {hs} and {workers} workers")
                bad += 1
    print(f"determinism: {len(names)} scenarios, {max(2, n // 50)} seeds each, 3 hash seeds and worker counts: {'all the same' if not bad else 'DIFFERENT'}")
    h = runner.Harness()
    try:
        outs = h.batch([(SCENARIOS["model"], 0, n)], None, 8, 3600, None)
        ops = sum(o.get("counts", {}).get("model.ops", 0) for o in outs)
        wrong = [o for o in outs if o.get("viol") or o.get("error")]
        for o in wrong[:3]:
            print(o["seed"], (o["viol"][0][2] if o.get("viol") else o["error"])[-2000:])
        print(f"model: {len(outs)} sequences, {ops} operations, {len(wrong)} differ from the kernel")
        bad += len(wrong)
    finally:
        h.close()
    return 1 if bad else 0


def explore(name: str, seeds: str, verbose: bool, props: list[str]) -> int:
    """Development aid: every violation of a range of seeds, all properties."""
    a, _, b = seeds.partition("-")
    lo, hi = int(a), int(b or int(a) + 1)
    h = runner.Harness()
    want = set(props) or None
    try:
        if verbose:
            for s in range(lo, hi):
                o = h.fork.one(SCENARIOS[name], s, None, "w00", want, True)
                print(o.get("text", ""), o.get("error", ""))
                for v in o.get("viol", []):
                    print("!!", v[1], v[2], f"#{v[3]}")
            return 0
        outs = h.batch([(SCENARIOS[name], lo, hi - lo)], want, int(os.environ.get("SIM_WORKERS", "8")), 3600, None)
        sigs: dict[str, list[t.Any]] = {}
        for o in outs:
            if o.get("error"):
                sigs.setdefault("ERROR", []).append((o["seed"], o["error"][-600:]))
            for sg in {v[1] for v in o.get("viol", [])}:
                v = next(v for v in o["viol"] if v[1] == sg)
                sigs.setdefault(sg, []).append((o["seed"], v[2]))
        tot: dict[str, int] = {}
        for o in outs:
            for k, n in o.get("counts", {}).items():
                tot[k] = tot.get(k, 0) + n
        for sg in sorted(sigs):
            print(f"{sg}: {len(sigs[sg])} of {len(outs)}; seeds {[x[0] for x in sigs[sg][:8]]}\n    {sigs[sg][0][1][:700]}")
        print("counts", dict(sorted(tot.items())))
        if os.environ.get("SIM_HASHES"):
            with open(os.environ["SIM_HASHES"], "w") as f:
                for o in outs:
                    f.write(f"{o['seed']} {o.get('trace')} {o.get('sched')} {o.get('steps')}\n")
        return 0
    finally:
        h.close()
        sys.stdout.flush()
