"""C27: what the TLS options ask for is what the handshake enforces.

A listener started with drawn TLS options and an adapter that attaches with
drawn ones; the real contexts ansibug builds from them do a real handshake over
the simulated network.  An own table says who has to be let in.
"""

from __future__ import annotations

import os
import typing as t

from . import tls
from .attach import World

LISTENER = {"server": 6, "otherhost": 1.5, "rogueserver": 2, "oldserver": 1.5}
CA_OF = {"server": "ca", "otherhost": "ca", "oldserver": "ca", "rogueserver": "otherca", "client": "ca", "oldclient": "ca", "rogue": "otherca"}
VERIFY = {"ca": 4, "cadir": 2, "cavar": 1, "otherca": 2, "ignore": 3, "absent": 2, "verify": 2, "missing": 0.7}
CLIENT_CA = {"": 3, "ca": 4, "cadir": 2, "otherca": 1}
IDENT = {"": 2, "client": 4, "rogue": 2, "oldclient": 1}
PW = "p4ss word"


def path(name: str) -> str:
    return os.path.join(tls.CERTS, name)


class TlsOpts(World):
    def build(self) -> None:
        ch = self.ch
        self.setup_pb()
        np = self.env.net.policy
        np.capacity = max(np.capacity, 4096)
        if np.latency > 0.05:
            np.latency, np.jitter = 0.05, 0.05
        self.pb_tls = True
        self.cert = self._pick(LISTENER)
        self.form = ["combined", "separate", "encrypted", "both", "env"][ch.decide("cfg", 5)] if self.cert == "server" else "combined"
        self.ca = self._pick(CLIENT_CA)
        self.system = ["", "ca", "otherca"][ch.weighted("cfg", [4, 2, 1])]  # what the platform trusts
        self.plain = ch.flip("cfg", 0.08)  # certificates are given but TLS is not asked for
        self.cfg.update(kind=self.kind, cert=self.cert, form=self.form, ca=self.ca, system=self.system, plain=self.plain, by="address")
        os.environ["SSL_CERT_FILE"] = path(f"{self.system}.pem") if self.system else path("none.pem")
        os.environ["SSL_CERT_DIR"] = path("none.d")
        os.environ["SIM_CERTS"] = tls.CERTS
        self.env.net.dns["other.example"] = self.env.net.dns.get("localhost") or [(10, "::1"), (2, "127.0.0.1")]
        extra = [] if self.plain else ["--wrap-tls"]
        self.pb_tls = not self.plain
        env = {}
        if self.form in ("combined",):
            extra += ["--tls-cert", path(f"{self.cert}.pem")]
        elif self.form == "separate":
            extra += ["--tls-cert", path("server.crt"), "--tls-key", path("server.key")]
        elif self.form == "both":
            extra += ["--tls-cert", path("server.both"), "--tls-key-pass", PW]
        else:
            extra += ["--tls-cert", path("server.crt"), "--tls-key", path("server.enc")]
            if self.form == "env":
                env = {"ANSIBUG_TLS_KEY_PASS": PW}
            else:
                extra += ["--tls-key-pass", PW]
        if self.ca:
            extra += ["--tls-client-ca", self._ca(self.ca)]
        self.wire: list[tuple[str, bytes]] = []
        self.env.net.tap = self._tap
        for k, v in env.items():
            os.environ[k] = v  # seen when the command line is parsed
        self.listen("uds://" if self.kind == "uds" else "tcp://", extra)
        self.main = self.sim.spawn("client", self._main, client=True)

    def _pick(self, weights: dict[str, float]) -> str:
        return list(weights)[self.ch.weighted("cfg", list(weights.values()))]

    @staticmethod
    def _ca(kind: str) -> str:
        return {"ca": path("ca.pem"), "otherca": path("otherca.pem"), "cadir": path("ca.d"), "cavar": "$SIM_CERTS/ca.pem",
                "missing": path("nothing.pem")}[kind]

    def _tap(self, who: str, data: bytes) -> None:
        """What really goes over the network."""
        if len(self.wire) < 400:
            self.wire.append((who, data[:200]))

    # -------------------------------------------------------------- attempts

    def options(self) -> tuple[dict[str, t.Any], dict[str, t.Any]]:
        ch = self.ch
        o: dict[str, t.Any] = {"use": not ch.flip("cfg", 0.1), "verify": self._pick(VERIFY), "ident": self._pick(IDENT), "pw": PW}
        o["iform"] = ["combined", "separate", "encrypted", "both", "wrongpw"][ch.weighted("cfg", [4, 2, 2, 1, 0.7])] if o["ident"] == "client" else "combined"
        o["host"] = "" if self.kind == "uds" else ["localhost", "127.0.0.1", "[::1]", "other.example"][ch.weighted("cfg", [5, 1, 1, 2])]
        return o, self.build_args(o)

    def build_args(self, o: dict[str, t.Any]) -> dict[str, t.Any]:
        a: dict[str, t.Any] = {}
        if o["use"]:
            a["useTls"] = True
        if o["verify"] in ("ignore", "verify"):
            a["tlsVerification"] = o["verify"]
        elif o["verify"] != "absent":
            a["tlsVerification"] = self._ca(o["verify"])
        i = o["ident"]
        if i and o["iform"] == "combined":
            a["tlsCertificate"] = path(f"{i}.pem")
        elif i == "client" and o["iform"] == "both":
            a.update(tlsCertificate=path("client.both"), tlsKeyPassword=PW)
        elif i == "client":
            a.update(tlsCertificate=path("client.crt"), tlsKey=path("client.key" if o["iform"] == "separate" else "client.enc"))
            if o["iform"] != "separate":
                a["tlsKeyPassword"] = "wrong" if o["iform"] == "wrongpw" else PW
        return a

    def expected(self, o: dict[str, t.Any]) -> str:
        if o["use"] != self.pb_tls:
            return "fail"
        if not o["use"]:
            return "ok"
        if o["verify"] == "missing" or o["ident"] and o["iform"] == "wrongpw":
            return "fail"
        res = "ok"
        if o["verify"] != "ignore":
            signer = CA_OF[self.cert]
            named = {"server": ("localhost", "127.0.0.1", "[::1]"), "rogueserver": ("localhost", "127.0.0.1", "[::1]"),
                     "oldserver": (), "otherhost": ("other.example",)}[self.cert]
            if o["host"] not in named:
                return "fail"
            trusted = {"ca": "ca", "cadir": "ca", "cavar": "ca", "otherca": "otherca"}.get(o["verify"], self.system)
            if trusted != signer:
                if self.system != signer:
                    return "fail"
                res = "either"  # whether a bundle is instead of or on top of what the platform trusts isn't said
        if self.ca:
            if not o["ident"] or o["ident"] == "oldclient":
                return "fail"
            if {"ca": "ca", "cadir": "ca", "otherca": "otherca"}[self.ca] != CA_OF[o["ident"]]:
                return "fail"
        return res

    def address(self, info: dict[str, t.Any], host: str) -> str:
        if self.kind == "uds":
            return t.cast(str, info["address"])
        return f"tcp://{host}:{info['address'].rsplit(':', 1)[1]}"

    def _main(self) -> None:
        info = self.wait_info()
        if info is None:
            return
        self.opts: list[dict[str, t.Any]] = []
        for i in range(3):
            o, args = self.options()
            if i == 2:
                # one that has to get in
                o.update(use=self.pb_tls, verify="ignore", ident={"": "", "ca": "client", "cadir": "client", "otherca": "rogue"}[self.ca],
                         iform="combined", host=o["host"])
                args = self.build_args(o)
            exp = self.expected(o)
            o["expect"] = exp
            self.opts.append(o)
            a = self.attempt(f"a{i}", f"listener {self.cert}/{self.form}/{self.ca or 'no client ca'}, system {self.system or 'nothing'}, adapter "
                             + " ".join(f"{k}={v}" for k, v in o.items() if k not in ("pw", "expect")),
                             {"address": self.address(info, o["host"]), **args}, exp, timeout=100.0)
            a.tls = o["use"]  # type: ignore[attr-defined]
            self.until(lambda: a.resp is not None or not a.proc.alive)
            if a.ok or self.plain and o["use"]:
                # without TLS the bytes of a handshake are a message: it was accepted and is lost again
                return
            self.until(lambda: not a.proc.alive, 1000.0)
            info = self.wait_info()
            if info is None:
                return

    # --------------------------------------------------------------- judging

    def judge(self) -> None:
        sim = self.sim
        slow = sim.stalled > 4
        ok = False
        for a in self.attempts:
            if slow and a.expect == "ok":
                a.expect = "either"
            self.judge_attempt("C27", a)
            self.count(f"c27.{a.expect}.{'ok' if a.ok else 'failed' if a.resp else 'none'}")
            ok = ok or a.ok
        if self.pb_tls:
            for who, d in self.wire:
                if who.startswith("ans") or who.startswith("da") and all(getattr(a, "tls", False) for a in self.attempts):
                    if b"ansibug.dap" in d:  # a pickled message
                        self.bad("C27", "cleartext", f"{who} sent {d[:60]!r} over the network")
        ans = t.cast(t.Any, self.ans)
        ran = any(e.kind == "play.start" for e in sim.history)
        if ran and not ok and not self.plain:
            self.bad("C27", "reached", "the playbook started although nobody was let in")
        if ok:
            self.judge_playbook("C27")
        if not any(a.client for a in self.attempts):
            self.bad("C27", "no-listener", f"the listener never was ready: {ans.stderr_text.getvalue()[-300:]}")
        self.check_adapters("C27")
