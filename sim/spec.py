"""Which scenarios decide which property, and how much of each."""

from __future__ import annotations

import os
import typing as t

from . import advert, attach, channel, chunks, launch, oracles, peers, selftest, tlsopts
from .choice import Chooser
from .session import Profile, Session


class SessionScenario:
    """A whole debug session judged by the session oracles."""

    def __init__(self, name: str, **kw: t.Any) -> None:
        self.name = name
        self.prof = Profile(name, **kw)

    def run(self, ch: Chooser, base: str, slot: str, dump: bytes, verbose: bool) -> dict[str, t.Any]:
        s = Session(ch, base, slot, dump, self.prof, verbose)
        s.run()
        viol, counts = oracles.judge(s)
        if not any(e.kind == "play.start" for e in s.base_hist):
            counts["playbooks.rejected"] = 1  # by Ansible, with and without the debugger
        detail = ""
        if verbose:
            for root, _, files in sorted(os.walk(os.path.dirname(s.pb.main))):
                for fn in sorted(files):
                    with open(os.path.join(root, fn), errors="replace") as f:
                        detail += f"----- {os.path.relpath(os.path.join(root, fn), os.path.dirname(s.pb.main))}\n{f.read()}"
            if s.env.arun:
                detail += "----- output of Ansible\n" + "\n".join(s.env.arun.display)
            detail += f"\nmode={s.mode} end={s.end} trigger={s.trigger} result={s.result} residue={s.env.residue()}\n"
            for p in s.sim.procs:
                e = p.stderr_text.getvalue()
                if e:
                    detail += f"--- stderr of {p.name}\n{e}"
        res = {"sim": s.sim, "viol": viol, "counts": counts, "detail": detail,
               "cfg": f"mode={s.mode} end={s.end} {s.trigger} hosts={len(s.pb.hosts)} plays={s.pb.n_plays} tasks={s.pb.n_tasks} stops={len(s.stops)}",
               "probes": [f"mode:{s.mode}", f"end:{s.end}"] + [f"item:{k}" for k in s.pb.kinds]}
        s.env.close()
        return res


ENDS_ALL = {"natural": 3, "disconnect": 2, "disconnect_term": 2, "terminate": 2, "vanish": 1, "vanish_stdin": 1,
            "vanish_stdout": 1, "kill_ans": 1.5, "sigint_ans": 1, "reset": 1}
SCENARIOS: dict[str, t.Any] = {}


def scn(name: str, **kw: t.Any) -> None:
    SCENARIOS[name] = SessionScenario(name, **kw)


scn("plain")
scn("ends", ends=ENDS_ALL, poke=0.3, aim=0.2)
scn("lost", aim=0.3, ends={"disconnect": 3, "kill_da": 3, "reset": 1})
scn("term", aim=0.3, ends={"terminate": 1, "disconnect_term": 1})
scn("finish", ends={"natural": 4, "sigint_ans": 1}, shape={"abort": 1.0})
scn("vanish", aim=0.3, ends={"vanish": 1, "vanish_stdin": 1, "vanish_stdout": 1})
scn("stops", poke=0.3, inspect=1.0)
scn("poke", poke=1.0, noise=[1, 2, 4, 3, 2], steps={"continue": 3, "next": 1, "stepIn": 1, "stepOut": 0.3})
scn("detach", aim=1.0, ends={"disconnect": 3, "vanish": 1, "kill_da": 1}, p_bp=0.5, conditions=0.1, shape={"recurse": 4})
scn("steps", p_bp=0.15, conditions=0.05, steps={"continue": 1, "next": 4, "stepIn": 4, "stepOut": 3}, max_stops=25, change_bps=0.1,
    shape={"max_depth": 4, "budget": 20, "recurse": 8})
scn("filters", filters=1.0, p_bp=0.1, change_bps=0.4, steps={"continue": 4, "next": 2, "stepIn": 1, "stepOut": 1},
    poke=0.3, max_stops=20)
scn("verify", p_bp=0.5, change_bps=0.8, poke=0.6, conditions=0.1, noise=[1, 2, 4, 3, 2])
scn("threads", poke=0.6, shape={"max_plays": 3, "budget": 10, "abort": 0.4}, p_bp=0.2)
scn("inspect", p_bp=0.4, filters=0.7, stale=2, max_stops=14)
scn("modify", modify=0.8, p_bp=0.5, max_stops=14)
scn("mapping", mapping=1.0, poke=0.4, shape={"deep": 0.4})

SCENARIOS["deliver"] = channel.Deliver("deliver")
SCENARIOS["cancel"] = channel.Cancel("cancel", noise=[1, 2, 3, 5, 3], stall=0.4)
SCENARIOS["attach"] = attach.Attach("attach", stall=0.2)
SCENARIOS["chunks"] = chunks.Chunks("chunks", stall=0.1)
SCENARIOS["launch"] = launch.Launch("launch", stall=0.2)
SCENARIOS["advert"] = advert.Advert("advert", stall=0.1)
SCENARIOS["tlspeers"] = peers.TlsPeers("tlspeers", stall=0.1)
SCENARIOS["tlsopts"] = tlsopts.TlsOpts("tlsopts", stall=0.1)
SCENARIOS["model"] = selftest.Model("model")

# property -> (scenarios with quick counts, thorough factor)
PLAN: dict[str, list[tuple[str, int]]] = {
    "C01": [("ends", 900), ("poke", 200)],
    "C02": [("ends", 500), ("poke", 500)],
    "C03": [("chunks", 1200)],
    "C04": [("plain", 500), ("poke", 500)],
    "C05": [("lost", 800), ("detach", 300)],
    "C06": [("term", 1000)],
    "C07": [("finish", 1000)],
    "C08": [("vanish", 1000)],
    "C09": [("stops", 600), ("filters", 300)],
    "C10": [("plain", 400), ("stops", 400), ("poke", 300)],
    "C11": [("poke", 700), ("detach", 600)],
    "C12": [("steps", 900)],
    "C13": [("filters", 1000)],
    "C14": [("verify", 1000)],
    "C15": [("threads", 1000)],
    "C16": [("inspect", 900)],
    "C17": [("modify", 900)],
    "C18": [("deliver", 3500)],
    "C19": [("cancel", 4000)],
    "C20": [("launch", 1500)],
    "C21": [("attach", 1200)],
    "C22": [("tlspeers", 1200)],
    "C23": [("advert", 1000), ("attach", 300), ("tlspeers", 200)],
    "C24": [("mapping", 900)],
    "C27": [("tlsopts", 1200)],
}
NONTRIVIAL: dict[str, list[str]] = {
    "C01": ["c01.responses"], "C02": ["c02.messages"], "C03": ["c03.requests"], "C04": ["c04.tasks"], "C05": ["c05.lost"], "C06": ["c06.terminated"],
    "C07": ["c07.finished"], "C08": ["c08.vanished"], "C09": ["c09.stops"], "C10": ["c10.hits"], "C11": ["c04.tasks"],
    "C12": ["c12.decisions"], "C13": ["c13.hits", "c13.misses"], "C14": ["c14.told"], "C15": ["c15.threads"],
    "C16": ["c16.evals", "c16.scopes", "c16.stacks"], "C17": ["c17.mods"], "C24": ["c14.told", "c16.stacks"],
    "C18": ["c18.received", "c18.ended"], "C19": ["c19.cancels"], "C20": ["c20.attempts"], "C21": ["c21.attempts"],
    "C22": ["c22.peers"], "C23": ["c23.seen", "c23.runs"],
    "C27": ["c27.attempts"],
}
THOROUGH = 12


class Spec:
    @staticmethod
    def scenario(name: str) -> t.Any:
        return SCENARIOS[name]

    @staticmethod
    def plan(prop: str, tier: str, seed: int) -> list[tuple[t.Any, int, int]]:
        out = []
        for k, (name, n) in enumerate(PLAN[prop]):
            if tier == "thorough":
                n *= THOROUGH
            h = int.from_bytes(prop.encode(), "big") % 997
            out.append((SCENARIOS[name], (seed * 1000 + h) * 100_000 + k * 30_000 % 100_000, n))
        return out

    @staticmethod
    def cap(tier: str) -> float:
        return 420.0 if tier == "quick" else 6 * 3600.0

    @staticmethod
    def nontrivial(prop: str) -> list[str]:
        return NONTRIVIAL[prop]

    @staticmethod
    def extra_real(prop: str) -> list[str]:
        return []
