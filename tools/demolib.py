"""A minimal debug client for the demonstrations: real processes, everything in a scratch folder."""
import json
import os
import queue
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

PY = "/opt/venv/bin/python"


class Dbg:
    def __init__(self, files, hosts="h1"):
        self.dir = tempfile.mkdtemp(prefix="demo-")
        self.procs = []
        self.msgs = []
        self.cond = threading.Condition()
        self.seq = 0
        self.da = None
        self.eof = False
        self.term_rc = None
        names = hosts.split()
        self.write("inv.ini", "\n".join(f"{h} ansible_connection=local ansible_python_interpreter={PY}" for h in names) + "\n")
        for k, v in files.items():
            self.write(k, v)
        env = {k: v for k, v in os.environ.items() if not k.startswith(("ANSIBLE_", "ANSIBUG_", "PYTHON"))}
        env.update(HOME=self.dir, TMPDIR=self.dir, ANSIBLE_LOCAL_TEMP=self.dir + "/atmp", ANSIBLE_HOME=self.dir + "/ah",
                   LC_ALL="C.UTF-8", ANSIBLE_NOCOLOR="1", PYTHONDONTWRITEBYTECODE="1", ANSIBLE_HOST_KEY_CHECKING="0",
                   PATH="/opt/venv/bin:" + os.environ.get("PATH", "/usr/bin:/bin"))
        self.env = env

    def write(self, name, text):
        p = os.path.join(self.dir, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f:
            f.write(text)
        return p

    def path(self, name):
        return os.path.join(self.dir, name)

    def spawn(self, args, **kw):
        out = open(os.path.join(self.dir, f"out{len(self.procs)}.txt"), "wb")
        p = subprocess.Popen(args, cwd=self.dir, env={**self.env, **kw.pop("env", {})}, stdin=subprocess.DEVNULL, stdout=out,
                             stderr=out, start_new_session=True, **kw)
        p.outfile = out.name
        self.procs.append(p)
        return p

    def start_da(self):
        self.da = subprocess.Popen([PY, "-m", "ansibug", "dap"], cwd=self.dir, env=self.env, stdin=subprocess.PIPE,
                                   stdout=subprocess.PIPE, stderr=open(self.path("da.err"), "wb"), start_new_session=True)
        self.procs.append(self.da)
        threading.Thread(target=self._read, daemon=True).start()

    def _read(self):
        f = self.da.stdout
        while True:
            n = 0
            while True:
                line = f.readline()
                if not line:
                    with self.cond:
                        self.eof = True
                        self.cond.notify_all()
                    return
                line = line.strip()
                if not line:
                    break
                k, v = line.split(b":")
                if k.lower() == b"content-length":
                    n = int(v)
            msg = json.loads(f.read(n))
            with self.cond:
                self.msgs.append(msg)
                self.cond.notify_all()
            if msg["type"] == "request" and msg["command"] == "runInTerminal":
                self.on_terminal(msg)

    def on_terminal(self, msg):
        p = self.spawn(msg["arguments"]["args"])
        self.term = p
        self.send({"type": "response", "request_seq": msg["seq"], "success": True, "command": "runInTerminal",
                   "body": {"shellProcessId": p.pid}})

    def raw(self, data):
        self.da.stdin.write(data)
        self.da.stdin.flush()

    def encode(self, obj):
        self.seq += 1
        obj["seq"] = self.seq
        b = json.dumps(obj).encode()
        return b"Content-Length: %d\r\n\r\n" % len(b) + b

    def send(self, obj):
        self.raw(self.encode(obj))
        return self.seq

    def ask(self, command, args=None):
        m = {"type": "request", "command": command}
        if args is not None:
            m["arguments"] = args
        return self.send(m)

    def wait(self, pred, timeout=60, what=""):
        end = time.monotonic() + timeout
        with self.cond:
            while True:
                for m in self.msgs:
                    if pred(m):
                        return m
                left = end - time.monotonic()
                if left <= 0 or self.eof:
                    raise AssertionError(f"never got {what}; got {[(m['type'], m.get('command') or m.get('event')) for m in self.msgs]}")
                self.cond.wait(left)

    def resp(self, seq, timeout=60):
        return self.wait(lambda m: m["type"] == "response" and m["request_seq"] == seq, timeout, f"response to {seq}")

    def req(self, command, args=None, timeout=60):
        return self.resp(self.ask(command, args), timeout)

    def ok(self, command, args=None, timeout=60):
        r = self.req(command, args, timeout)
        assert r["success"], r
        return r.get("body") or {}

    def events(self, name):
        with self.cond:
            return [m for m in self.msgs if m["type"] == "event" and m["event"] == name]

    def nth(self, name, n, timeout=60):
        """The n-th (from 0) event of that name."""
        end = time.monotonic() + timeout
        with self.cond:
            while True:
                e = [m for m in self.msgs if m["type"] == "event" and m["event"] == name]
                if len(e) > n:
                    return e[n]
                left = end - time.monotonic()
                if left <= 0 or self.eof:
                    raise AssertionError(f"never got the {n + 1}. {name} event; got "
                                         f"{[(m['type'], m.get('command') or m.get('event')) for m in self.msgs]}")
                self.cond.wait(left)

    def bps(self, name, *bps):
        return self.ok("setBreakpoints", {"source": {"path": name if name.startswith("/") else self.path(name)},
                                          "breakpoints": [b if isinstance(b, dict) else {"line": b} for b in bps]})["breakpoints"]

    def launch(self, playbook="main.yml", args=(), **kw):
        self.start_da()
        self.ok("initialize", {"adapterID": "ansibug"})
        self.ok("launch", {"playbook": self.path(playbook), "args": ["-i", self.path("inv.ini"), *args], "connectTimeout": 60, **kw})
        self.wait(lambda m: m.get("event") == "initialized", what="initialized")

    def listen(self, playbook="main.yml", args=(), addr="uds://"):
        p = self.spawn([PY, "-m", "ansibug", "listen", "--addr", addr, self.path(playbook), "-i", self.path("inv.ini"), *args])
        self.lp = p
        pid = os.path.join(self.dir, f"ansibug-pid-{p.pid}")
        end = time.monotonic() + 60
        while not os.path.exists(pid):
            assert time.monotonic() < end and p.poll() is None, open(p.outfile).read()
            time.sleep(0.02)
        return json.load(open(pid))["address"]

    def attach(self, **kw):
        if self.da is None:
            self.start_da()
            self.ok("initialize", {"adapterID": "ansibug"})
        self.ok("attach", {"processId": self.lp.pid, "connectTimeout": 30, **kw})
        self.wait(lambda m: m.get("event") == "initialized", what="initialized")

    def top(self, tid):
        return self.ok("stackTrace", {"threadId": tid})["stackFrames"][0]

    def out(self, p):
        with open(p.outfile, errors="replace") as f:
            return f.read()

    def finish(self, timeout=60):
        self.nth("terminated", 0, timeout)
        self.ask("disconnect")
        self.da.wait(timeout)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        for p in self.procs:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
        shutil.rmtree(self.dir, ignore_errors=True)


def main(fn):
    try:
        fn()
    except AssertionError as e:
        print("FAIL", e)
        sys.stdout.flush()
        os._exit(1)
    print("ok")
    sys.stdout.flush()
    os._exit(0)
