"""Running one scripted editor session, and asking a fresh server about one state of it."""
from common import *
from lsp import *
import disk
import lspgen as G

# Pipes between the editor and the server, and between the server and an extension.
PIPES = [{}, {}, {"delay": [0, 3]}, {"seg": 7}, {"seg": 1, "spurious": 20}, {"delay": [0, 40], "seg": 64}, {"delay": [1, 300], "cap": 4096},
         {"cap": 512, "delay": [0, 2]}, {"spurious": 50}]
PROMPT = [{}]
FRESH_BUDGET = 20


def lay(root, files):
    """Create the simulated disk."""
    fresh_dir(root)
    for d in ("w", "home", "cache", "config", "tmp", "bin"):
        os.makedirs(os.path.join(root, d), exist_ok=True)
    for path, c in sorted(files.items()):
        p = os.path.join(root, path)
        if c is None:
            os.makedirs(p, exist_ok=True)
            continue
        os.makedirs(os.path.dirname(p), exist_ok=True)
        mode = 0o644
        if isinstance(c, dict):
            if "link" in c:
                os.symlink(c["link"].replace("$ROOT", root), p)
                continue
            if "fifo" in c:
                os.mkfifo(p)
                continue
            mode = c.get("mode", 0o644)
            b = bytes.fromhex(c["hex"])
        else:
            b = c.encode()
        with open(p, "wb") as f:
            f.write(b)
        os.chmod(p, mode)


class History:
    """What happened in a session, in the order it happened."""

    def __init__(self, case, root):
        self.case, self.root = case, root
        self.ev = []
        self.sent = {}            # script index -> (n, t)
        self.dead = None
        self.final = None
        self.states = []          # [(n, {uri: (text, version)})] after each change of the open documents, or of the disk
        self.writes = []          # [(n of the event before, path, text)]
        self.disks = []           # for each state, how many of the writes came before
        self.reqs = {}            # id -> {"method", "params", "n", "t", "op"}
        self.resp = {}            # id -> [(n, t, message)]
        self.pubs = []            # (n, t, params)
        self.spawns = []
        self.asked = []           # requests of the server to the editor
        self.steps = 0
        self.dyn = {}             # script index -> what a dynamic operation became

    def at(self, n):
        """Index of the state of the documents at a moment of the history."""
        k = 0
        for i, (m, _) in enumerate(self.states):
            if m <= n:
                k = i
        return k

    def of(self, kind):
        return [e for e in self.ev if e["e"] == kind]


def docop(op, uri):
    if op[0] == "open":
        return notify("textDocument/didOpen", {"textDocument": {"uri": uri, "languageId": "styx", "version": op[3], "text": op[2]}})
    if op[0] == "change":
        return notify("textDocument/didChange", {"textDocument": {"uri": uri, "version": op[3]}, "contentChanges": [{"text": op[2]}]})
    return notify("textDocument/didClose", {"textDocument": {"uri": uri}})


def subst(v, root):
    return json.loads(json.dumps(v).replace("$ROOT", root))


def config_of(case):
    c = {"seed": case["seed"], "in": case.get("in", {}), "out": case.get("out", {}), "exts": case.get("exts", {}),
         "uris": subst(case.get("uris", []), case["dir"]), "reply_ms": case.get("reply_ms", 0), "pause": case.get("pause", 0)}
    return c


def env_of(case):
    e = {"RUST_BACKTRACE": "0"}
    if case.get("no_config_env"):
        e["XDG_CONFIG_HOME"] = ""
    return e


def run_case(case, keep=False):
    """Run the script of a case. Always lays out the disk anew."""
    root = case["dir"]
    lay(root, case["files"])
    h = History(case, root)
    s = None
    try:
        s = Session(root, config_of(case), case.get("plan"), wall=case.get("wall", 30), path=root + "/bin", env=env_of(case))
        if case.get("init", True):
            ini = dict(INIT)
            ini["capabilities"] = case.get("caps", {})
            s.batch([["send", {"jsonrpc": "2.0", "id": 0, "method": "initialize", "params": ini}, -2], ["wait", case.get("init_wait", 2000)],
                     ["send", {"jsonrpc": "2.0", "method": "initialized", "params": {}}, -1]])
        drive(s, h, case["script"])
        if case.get("finish", True):
            h.final = s.end()
    except Dead as e:
        h.dead = (e.why, e.code)
    finally:
        if s is not None:
            if s.p.poll() is None:
                s.p.kill()
            s.close()
    if s is not None:
        h.steps = getattr(s, "steps", 0)
        digest(h, s.ev)
    return h


def last_diags(ev, uri):
    for e in reversed(ev):
        if e["e"] == "recv" and e["m"].get("method") == "textDocument/publishDiagnostics" and e["m"]["params"]["uri"] == uri:
            return e["m"]["params"]["diagnostics"]
    return []


def wire(m, i):
    """One message, framed. Only what no Unicode text can hold is escaped."""
    try:
        b = json.dumps(m, ensure_ascii=False).encode()
    except UnicodeEncodeError:
        b = json.dumps(m).encode()
    return ["framed", (b"Content-Length: %d\r\n\r\n" % len(b) + b).hex(), i]


# Operations that depend on what the server has answered: name -> f(op, editor) -> message or None
DYNAMIC = {}


class Editor:
    """What the simulated editor knows: its texts, and what it has received."""

    def __init__(self, s, h):
        self.s, self.h = s, h
        self.text = {}           # path -> text
        self.asked = {}          # request id -> (path, text it was asked about)

    def uri(self, path):
        return subst(G.uri_of(path), self.h.root)

    def diags(self, path):
        return last_diags(self.s.ev, self.uri(path))

    def answer(self, i):
        for e in self.s.ev:
            if e["e"] == "recv" and e["m"].get("id") == i and "method" not in e["m"]:
                return e["m"]

    def request(self, i, path, method, params):
        self.asked[i] = (path, self.text.get(path))
        params = dict(params, textDocument={"uri": self.uri(path)})
        return {"jsonrpc": "2.0", "id": i, "method": method, "params": params}

    def change(self, path, text, version):
        self.text[path] = text
        return notify("textDocument/didChange", {"textDocument": {"uri": self.uri(path), "version": version}, "contentChanges": [{"text": text}]})[1]


def drive(s, h, script):
    root = h.root
    pend = []
    ed = Editor(s, h)

    def flush():
        if pend:
            s.batch(list(pend))
            pend.clear()

    for i, op in enumerate(script):
        k = op[0]
        if k in ("open", "change", "close"):
            m = docop(op, subst(G.uri_of(op[1]), root))
            if k == "close":
                ed.text.pop(op[1], None)
            else:
                ed.text[op[1]] = op[2]
            pend.append(wire(m[1], i))
        elif k == "req":
            pend.append(wire({"jsonrpc": "2.0", "id": op[1], "method": op[2], "params": subst(op[3], root)}, i))
        elif k == "msg":
            pend.append(wire(subst(op[1], root), i))
        elif k == "text":
            pend.append(["text", op[1].replace("$ROOT", root), i])
        elif k == "framed":
            b = op[3].replace("$ROOT", root).encode()
            pend.append(["framed", ((op[2] % len(b)).encode() + b).hex(), i])
        elif k == "cancel":
            pend.append(["send", {"jsonrpc": "2.0", "method": "$/cancelRequest", "params": {"id": op[1]}}, i])
        elif k == "shutdown":
            pend.append(["send", {"jsonrpc": "2.0", "id": op[1], "method": "shutdown"}, i])
        elif k == "exit":
            pend.append(["send", {"jsonrpc": "2.0", "method": "exit"}, i])
        elif k == "allow":
            pend.append(["send", {"jsonrpc": "2.0", "id": op[1], "method": "workspace/executeCommand",
                                  "params": {"command": "styx.allowExtension", "arguments": [{"command": op[2]}]}}, i])
        elif k == "runaction":
            # What the editor does when the user picks the offered command.
            flush()
            got = [e["m"] for e in s.ev if e["e"] == "recv" and e["m"].get("id") == op[2] and "method" not in e["m"]]
            cmds = [a["command"] for a in ((got[0].get("result") or []) if got else []) if isinstance(a.get("command"), dict)]
            if not cmds:
                h.dyn[i] = None
                continue
            m = {"jsonrpc": "2.0", "id": op[1], "method": "workspace/executeCommand", "params": {k: cmds[0][k] for k in ("command", "arguments") if k in cmds[0]}}
            h.dyn[i] = m
            pend.append(["send", m, i])
        elif k in ("action", "allowoffered"):
            # What the editor would do with what it has been shown.
            flush()
            uri = subst(G.uri_of(op[2]), root)
            ds = last_diags(s.ev, uri)
            if k == "action":
                p = subst(op[3], root)
                p["textDocument"] = {"uri": uri}
                p["context"] = {"diagnostics": ds}
                m = {"jsonrpc": "2.0", "id": op[1], "method": "textDocument/codeAction", "params": p}
            else:
                d = [x for x in ds if x.get("source") == "styx-extension" and isinstance(x.get("data"), dict)]
                if not d:
                    h.dyn[i] = None
                    continue
                m = {"jsonrpc": "2.0", "id": op[1], "method": "workspace/executeCommand",
                     "params": {"command": "styx.allowExtension", "arguments": [{"command": d[0]["data"].get("command")}]}}
            h.dyn[i] = m
            pend.append(["send", m, i])
        elif k in DYNAMIC:
            flush()
            m = h.dyn[i] = DYNAMIC[k](op, ed)
            if m is not None:
                pend.append(wire(m, i))
        elif k == "write":
            flush()
            p = os.path.join(root, op[1])
            with open(p, "w") as f:
                f.write(op[2])
            h.writes.append(((s.ev[-1]["n"] if s.ev else 0) + 0.5, op[1], op[2]))
        elif k in ("wait", "yield", "stall", "raw", "eof", "cut", "drain"):
            pend.append(list(op))
        else:
            raise HarnessError(f"op {op}")
    flush()


def digest(h, ev):
    h.ev = ev
    root, script = h.root, h.case["script"]
    docs = {}
    h.states = [(0, {})]
    later = list(h.writes)
    for e in ev + [{"n": float("inf"), "e": ""}]:
        while later and later[0][0] < e["n"]:
            h.states.append((later.pop(0)[0], docs))
        k = e["e"]
        if k == "send":
            i = e["i"]
            if i == -2:
                h.reqs[0] = {"method": "initialize", "params": {}, "n": e["n"], "t": e["t"], "op": -2}
            if i is None or i < 0:
                continue
            h.sent[i] = (e["n"], e["t"])
            op = script[i]
            if op[0] in ("open", "change"):
                docs = dict(docs)
                docs[subst(G.uri_of(op[1]), root)] = (op[2], op[3], i)
                h.states.append((e["n"], docs))
            elif op[0] == "close":
                docs = dict(docs)
                docs.pop(subst(G.uri_of(op[1]), root), None)
                h.states.append((e["n"], docs))
            elif op[0] in DYNAMIC and "id" not in h.dyn[i]:
                p = h.dyn[i]["params"]
                docs = dict(docs)
                docs[p["textDocument"]["uri"]] = (p["contentChanges"][0]["text"], p["textDocument"]["version"], i)
                h.states.append((e["n"], docs))
            elif op[0] in ("req", "allow", "shutdown", "action", "allowoffered", "runaction") or op[0] in DYNAMIC:
                m = {"req": lambda: (op[2], subst(op[3], root)), "allow": lambda: ("workspace/executeCommand", {"command": op[2]}),
                     "shutdown": lambda: ("shutdown", None)}.get(op[0], lambda: (h.dyn[i]["method"], h.dyn[i]["params"]))()
                h.reqs[op[1]] = {"method": m[0], "params": m[1], "n": e["n"], "t": e["t"], "op": i}
            elif op[0] == "msg" and isinstance(op[1], dict) and "id" in op[1] and "method" in op[1]:
                h.reqs[op[1]["id"]] = {"method": op[1]["method"], "params": op[1].get("params"), "n": e["n"], "t": e["t"], "op": i}
        elif k == "recv":
            m = e["m"]
            if "method" in m:
                if m["method"] == "textDocument/publishDiagnostics":
                    h.pubs.append((e["n"], e["t"], m["params"]))
                if "id" in m:
                    h.asked.append((e["n"], e["t"], m))
            elif "id" in m:
                i = m["id"]
                h.resp.setdefault(i if isinstance(i, (int, str)) else None, []).append((e["n"], e["t"], m))
        elif k == "spawn":
            h.spawns.append(e)
    k = 0
    for n, _ in h.states:
        while k < len(h.writes) and h.writes[k][0] <= n:
            k += 1
        h.disks.append(k)


# ------------------------------------------------------------------------------- fresh servers
class Fresh:
    """Answers of freshly started servers, on the same disk, for one state of the open documents."""

    def __init__(self, h):
        self.case, self.writes = h.case, h.writes
        self.cache = {}
        self.sessions = 0

    def session(self, mode, disk):
        """mode: with (prompt extensions) | without (they never start) | blocked (not allowed)"""
        root = self.case["dir"]
        files = {p: self.case["files"][p] for _, p, _ in self.writes}
        files.update({p: text for _, p, text in self.writes[:disk]})
        for p, text in files.items():
            with open(os.path.join(root, p), "w") as f:
                f.write(text)
        cfgdir = os.path.join(root, "config/styx")
        os.makedirs(cfgdir, exist_ok=True)
        progs = sorted(self.case.get("exts", {}))
        with open(os.path.join(cfgdir, "config.styx"), "w") as f:
            f.write(G.config_text([] if mode == "blocked" else progs))
        # What a prompt extension of the same kind says.
        host = {p: self.case["exts"][p][0].get("hostile", 0) for p in progs}
        exts = {p: ([{"hostile": host[p]}] if mode == "with" else [{"spawn_err": True}]) for p in progs}
        self.sessions += 1
        return Session(root, {"seed": 1, "exts": exts}, path=root + "/bin")

    def start(self, s, docs):
        ops = [["send", {"jsonrpc": "2.0", "id": 0, "method": "initialize", "params": INIT}], ["wait", 50],
               notify("initialized", {})]
        for uri in sorted(docs):
            text, version = docs[uri][:2]
            ops.append(notify("textDocument/didOpen", {"textDocument": {"uri": uri, "languageId": "styx", "version": version, "text": text}}))
        ops.append(["wait", 2000])
        s.batch(ops)

    def answers(self, docs, reqs, mode, disk=0):
        """{id: message} for requests [(id, method, params)]"""
        key = lambda m, p: (mode, disk, json.dumps([[u, docs[u][0], docs[u][1]] for u in sorted(docs)]), m, json.dumps(p, sort_keys=True))
        todo = [q for q in reqs if key(q[1], q[2]) not in self.cache]
        if todo:
            with self.session(mode, disk) as s:
                self.start(s, docs)
                ops = []
                for n, (i, m, p) in enumerate(todo):
                    ops += [["send", {"jsonrpc": "2.0", "id": 100 + n, "method": m, "params": p}], ["wait", 500]]
                ev = s.batch(ops)
                got = {e["m"]["id"]: e["m"] for e in ev if e["e"] == "recv" and "id" in e["m"] and "method" not in e["m"]}
                for n, (i, m, p) in enumerate(todo):
                    self.cache[key(m, p)] = got.get(100 + n)
        return {q[0]: self.cache[key(q[1], q[2])] for q in reqs}

    def diags(self, uri, text, version, mode, disk=0):
        key = ("diags", mode, disk, uri, text, version)
        if key not in self.cache:
            with self.session(mode, disk) as s:
                self.start(s, {uri: (text, version)})
                ps = [e["m"]["params"] for e in s.ev if e["e"] == "recv" and e["m"].get("method") == "textDocument/publishDiagnostics"
                      and e["m"]["params"]["uri"] == uri]
                self.cache[key] = ps[-1]["diagnostics"] if ps else None
        return self.cache[key]


def body(m):
    """What an answer says, without its id."""
    if m is None:
        return None
    if "error" in m:
        return ["error", m["error"].get("code"), m["error"].get("message")]
    return ["result", m.get("result")]


def note(out, h):
    """Counters common to all session checks."""
    out.count("runs")
    out.count("sim_ms", h.ev[-1]["t"] if h.ev else 0)
    out.count("steps", h.steps)
    out.count("reach:requests", len(h.reqs))
    out.count("reach:responses", sum(len(v) for v in h.resp.values()))
    out.count("reach:extension starts", len(h.spawns))
    for e in h.ev:
        k = e["e"]
        if k in ("ext_never", "garbage", "stall", "killed", "exit"):
            out.count("fault:extension " + {"ext_never": "never answers a call", "exit": "exits", "killed": "killed by the server"}.get(k, k))
        elif k == "ext":
            out.count("reach:extension calls")
        elif k == "host":
            out.count("reach:host questions")
    if h.case.get("pause"):
        out.count("fault:seeded task pauses (runs)")
    for side in ("in", "out"):
        p = h.case.get(side) or {}
        for f in ("delay", "seg", "spurious", "cap"):
            if p.get(f):
                out.count(f"fault:pipe {f} (runs)")
    # The order of observable events is the interleaving.
    out.state([(e["e"], e.get("i"), e.get("call"), (e.get("m") or {}).get("id") if e["e"] == "recv" else None,
                (e.get("m") or {}).get("method") if e["e"] == "recv" else None) for e in h.ev])
