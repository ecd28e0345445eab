"""The one source of every nondeterministic decision in a simulated run.

A decision is identified by (stream, index): the n-th question asked of a named
stream.  0 is always the boring answer (no preemption, no fault, first in the
queue, full read).  A run is therefore completely described by its sparse map
of non-zero answers, which is what replay files hold and the minimiser edits.
"""

from __future__ import annotations

import hashlib
import random
import typing as t


class Stream:
    __slots__ = ("name", "idx", "rng", "rec", "log", "last")

    def __init__(self, name: str, rng: random.Random | None, rec: dict[int, int] | None) -> None:
        self.name = name
        self.idx = 0
        self.rng = rng
        self.rec = rec
        self.log: dict[int, int] = {}


class Chooser:
    """Answers decisions from a seed (search) or from a recorded map (replay)."""

    def __init__(self, seed: int, recorded: dict[str, dict[int, int]] | None = None) -> None:
        self.seed = seed
        self.recorded = recorded
        self.replaying = recorded is not None
        self.streams: dict[str, Stream] = {}

    def _rng(self, name: str) -> random.Random:
        h = hashlib.blake2b(f"{self.seed}/{name}".encode(), digest_size=8).digest()
        return random.Random(int.from_bytes(h, "little"))

    def stream(self, name: str) -> Stream:
        s = self.streams.get(name)
        if s is None:
            rec = None
            rng = None
            if self.replaying:
                rec = self.recorded.get(name, {})  # type: ignore[union-attr]
            else:
                rng = self._rng(name)
            s = self.streams[name] = Stream(name, rng, rec)
        return s

    def decide(self, name: str, n: int, policy: t.Callable[[random.Random], int] | None = None) -> int:
        """Returns a value in [0, n). policy maps the stream's PRNG to a value."""
        s = self.stream(name)
        i = s.idx
        s.idx += 1
        if n <= 1:
            return 0
        if s.rec is not None:
            v = s.rec.get(i, 0)
            if v >= n or v < 0:
                v %= n
        else:
            rng = t.cast(random.Random, s.rng)
            v = policy(rng) if policy else rng.randrange(n)
        if v:
            s.log[i] = v
        return v

    def flip(self, name: str, p: float) -> bool:
        if p <= 0 and not self.replaying:
            # still consumes an index so that replay alignment is unaffected
            self.stream(name).idx += 1
            return False
        return self.decide(name, 2, lambda r: 1 if r.random() < p else 0) == 1

    def pick(self, name: str, seq: t.Sequence[t.Any]) -> t.Any:
        return seq[self.decide(name, len(seq))]

    def weighted(self, name: str, weights: t.Sequence[float]) -> int:
        total = float(sum(weights))

        def pol(r: random.Random) -> int:
            x = r.random() * total
            for i, w in enumerate(weights):
                x -= w
                if x < 0:
                    return i
            return len(weights) - 1

        return self.decide(name, len(weights), pol)

    # Preemption streams: sparse by construction, the policy samples the gap to
    # the next preemption instead of being asked at every point.

    def next_gap(self, name: str, p: float) -> int:
        """How many points to let pass before the next preemption (-1: never)."""
        s = self.stream(name)
        if s.rec is not None:
            later = [i for i in s.rec if i >= s.idx]
            if not later:
                return -1
            return min(later) - s.idx
        if p <= 0:
            return -1
        rng = t.cast(random.Random, s.rng)
        g = int(rng.expovariate(p)) if p < 1 else 0
        return min(g, 1 << 30)

    def preempt_kind(self, name: str, skipped: int, n: int, policy: t.Callable[[random.Random], int]) -> int:
        s = self.stream(name)
        s.idx += skipped
        i = s.idx
        s.idx += 1
        if s.rec is not None:
            v = s.rec.get(i, 0) % n
        else:
            v = policy(t.cast(random.Random, s.rng))
        if v:
            s.log[i] = v
        return v

    def trace(self) -> dict[str, dict[int, int]]:
        return {k: dict(s.log) for k, s in self.streams.items() if s.log}
