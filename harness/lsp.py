"""Sessions of the real language server inside the simulator (lspsim)."""
import json, os, select, subprocess, sys, time
from common import *
import disk


class Dead(Exception):
    """The server's process is gone or does not come to rest."""

    def __init__(self, why, code=None):
        super().__init__(why)
        self.why, self.code = why, code


DEFAULT = {"seed": 1, "in": {}, "out": {}, "reply_ms": 0, "exts": {}, "uris": []}


class Session:
    """One server process. `root` is the simulated disk; the history is in self.ev."""

    def __init__(self, root, cfg, plan=None, env=None, wall=30, path="/nonexistent", cwd=None):
        self.root, self.ev, self.wall = root, [], wall
        side = root + ".side"
        os.makedirs(side, exist_ok=True)
        c = dict(DEFAULT)
        c.update(cfg)
        self.log = None
        p = {"root": root, "log": "", "std": 0, "segr": 0, "segw": 0, "eintr": 0, "seed": c["seed"],
             "entropy": 7, "pid": 4242, "time": 1700000000, "denyspawn": 1}
        p.update(plan or {})
        text = "".join(f"{k} {v}\n" for k, v in p.items() if k not in ("faults", "sticky", "keep"))
        for n, kind, v in p.get("faults", []):
            text += f"fault {n} {kind} {v}\n"
        for n, cls, e in p.get("sticky", []):
            text += f"sticky {n} {cls} {e}\n"
        c["plan"] = text
        if p["log"]:
            self.log = p["log"]
            if os.path.exists(self.log) and not p.get("keep"):
                os.unlink(self.log)
        e = {"PATH": path, "HOME": root + "/home", "XDG_CACHE_HOME": root + "/cache",
             "XDG_CONFIG_HOME": root + "/config", "TMPDIR": root + "/tmp", "LANG": "C.UTF-8", "RUST_BACKTRACE": "0"}
        e.update(env or {})
        self.p = subprocess.Popen([LSPSIM], stdin=subprocess.PIPE, stdout=subprocess.PIPE, cwd=cwd or root,
                                  stderr=subprocess.DEVNULL, env=e, bufsize=0)
        self.fd = self.p.stdout.fileno()
        self.buf = b""
        self.idx = 0
        self.t = 0
        self.ended = False
        self.next_id = 1
        self.ops = []          # everything sent to the executor, for replays
        self.final = None
        self._send(c)

    def _send(self, v):
        try:
            self.p.stdin.write(json.dumps(v).encode() + b"\n")
        except BrokenPipeError:
            self.p.wait()
            raise Dead("died", self.p.returncode)

    def batch(self, ops):
        """Run operations; returns the events they caused."""
        for o in ops:
            if o[0] in ("send", "text"):
                if len(o) == 2:
                    o.append(self.idx)
                    self.idx += 1
        self._send(ops)
        first = len(self.ev)
        deadline = time.time() + self.wall
        while True:
            while b"\n" in self.buf:
                line, self.buf = self.buf.split(b"\n", 1)
                e = json.loads(line)
                if e["e"] == "batch":
                    self.t = e["t"]
                    self.steps = e["steps"]
                    self.ended = e["ended"]
                    return self.ev[first:]
                self.ev.append(deep(e))
            left = deadline - time.time()
            if left <= 0 or not select.select([self.fd], [], [], left)[0]:
                self.p.kill()
                self.p.wait()
                raise Dead("hang")
            b = os.read(self.fd, 1 << 20)
            if not b:
                self.p.wait()
                raise Dead("died", self.p.returncode)
            self.buf += b

    def end(self):
        """End the simulation: the process exits as it is. Returns the process table."""
        self.batch([["end"]])
        deadline = time.time() + self.wall
        while b"\n" not in self.buf or b'"e":"end"' not in self.buf:
            left = deadline - time.time()
            if left <= 0 or not select.select([self.fd], [], [], left)[0]:
                self.p.kill()
                self.p.wait()
                raise Dead("hang at exit")
            b = os.read(self.fd, 1 << 20)
            if not b:
                self.p.wait()
                raise Dead("died at exit", self.p.returncode)
            self.buf += b
        for line in self.buf.split(b"\n"):
            if line:
                e = json.loads(line)
                if e["e"] == "end":
                    self.final = e
                else:
                    self.ev.append(deep(e))
        self.close()
        return self.final

    def close(self):
        try:
            self.p.stdin.close()
        except OSError:
            pass
        try:
            self.p.wait(5)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
        self.p.stdout.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        if self.p.poll() is None:
            self.p.kill()
        self.close()

    # --- protocol helpers
    def request(self, method, params):
        i = self.next_id
        self.next_id += 1
        return ["send", {"jsonrpc": "2.0", "id": i, "method": method, "params": params}]


def deep(e):
    if e["e"] == "recvraw":
        sys.setrecursionlimit(20000)
        e["e"] = "recv"
        e["m"] = json.loads(e["m"])
    return e


def notify(method, params):
    return ["send", {"jsonrpc": "2.0", "method": method, "params": params}]


INIT = {"processId": None, "rootUri": None, "capabilities": {}}


class Oracle:
    """The real parser and formatter, asked about texts."""

    def __init__(self):
        self.p = None
        self.cache = {}

    def ask(self, **q):
        key = json.dumps(q, sort_keys=True)
        if key in self.cache:
            return self.cache[key]
        if self.p is None or self.p.poll() is not None:
            self.p = subprocess.Popen([LSPSIM, "oracle"], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                      stderr=subprocess.DEVNULL)
        try:
            self.p.stdin.write(key.encode() + b"\n")
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except OSError:
            line = b""
        a = json.loads(line) if line else {"panic": True}
        if len(self.cache) > 5000:
            self.cache.clear()
        self.cache[key] = a
        return a


# ------------------------------------------------------------------ protocol positions (UTF-16)
def u16(s):
    return len(s.encode("utf-16-le")) // 2


def lines_of(text):
    """Lines as the protocol sees them: ends are \\n, \\r\\n, \\r. Returns [(text, start offset in str)]."""
    out, start, i = [], 0, 0
    while i < len(text):
        c = text[i]
        if c == "\n":
            out.append((text[start:i], start))
            start = i + 1
        elif c == "\r":
            out.append((text[start:i], start))
            if i + 1 < len(text) and text[i + 1] == "\n":
                i += 1
            start = i + 1
        i += 1
    out.append((text[start:], start))
    return out


def index_of(text, pos):
    """Protocol position -> index into the Python string, or None when it is not inside the text."""
    ls = lines_of(text)
    l, c = pos["line"], pos["character"]
    if l < 0 or l >= len(ls):
        return None
    s, start = ls[l]
    n = 0
    for k, ch in enumerate(s):
        if n == c:
            return start + k
        if n > c:
            return None          # inside a surrogate pair
        n += 2 if ord(ch) > 0xFFFF else 1
    return start + len(s) if n == c else None


def pos_of(text, idx):
    ls = lines_of(text)
    for n in range(len(ls) - 1, -1, -1):
        if ls[n][1] <= idx:
            s, start = ls[n]
            return {"line": n, "character": u16(s[:min(idx - start, len(s))])}


def byte_index(text, idx):
    return len(text[:idx].encode())
