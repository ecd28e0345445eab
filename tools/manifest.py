#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from sim/spec.py and properties.jsonl."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sim import spec  # noqa: E402

PURE = {
    "C25": "parse_addr_string is a pure function of its text: no schedule, clock, I/O or second party for a simulation to vary, "
           "only inputs, so this family has nothing to decide here.",
    "C26": "The console command parser is a pure function of one line; nothing about it depends on interleavings, time or faults.",
    "C28": "Computing the environment of ansible-playbook is a pure function of the user's configuration, evaluated once at start.",
}
NOTE = ("Seeded search, not a proof: a fixed number of simulated runs per seed. Adapter, debuggee, channel, strategy, callback and "
        "Ansible's own executor run real code in one process; sockets, pipes, locks, threads, clocks, process start and the task "
        "workers are simulated. Trusts those models and the reference models in sim/oracles.py.")


def main() -> None:
    props = [json.loads(x)["id"] for x in open(os.path.join(HERE, "properties.jsonl"))]
    checks = []
    na = []
    for p in props:
        if p in spec.PLAN:
            checks.append({
                "property": p,
                "quick_cmd": f"./check {p} quick",
                "thorough_cmd": f"./check {p} thorough",
                "technique": "deterministic simulation with fault injection (seeded schedules, "
                             + ", ".join(f"{s}" for s, _ in spec.PLAN[p]) + ")",
                "level": "exploration",
                "level_note": spec.NOTES.get(p, NOTE) if hasattr(spec, "NOTES") else NOTE,
            })
        else:
            na.append({"property": p, "reason": PURE.get(p, "Not built yet.")})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump({
            "version": 1,
            "setup_cmd": "./check setup",
            "checks": checks,
            "not_applicable": na,
            "notes": "No hooks in /repo: every seam is a module the code imports (socket, select, threading, os, time, ...).",
        }, f, indent=1)
        f.write("\n")


main()
