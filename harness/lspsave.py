"""Several server processes on one simulated disk, their system calls interleaved one at a time; and D01:
what a consent that was acknowledged leaves behind."""
import signal, stat
from lspprops import *
from lspext import PROGRAMS, lookalikes, esc, listing
from cli import remove_tree
import copy, select, time


def clip(b, n=200):
    return repr(b) if b is None or len(b) <= n else repr(b[:n]) + "…"
import disk

CRASHED = 86


class Gated(Session):
    """A server that stops before every step on the disk until it is released."""

    hung = False
    gate = {"op": "start", "path": ""}

    def __init__(self, root, cfg, plan, env=None, cwd=None):
        self.state = "new"
        self.gates = 0
        super().__init__(root, cfg, plan=dict(plan, gate="1 0"), env=env, cwd=cwd)

    def start(self, ops):
        for o in ops:
            o.append(self.idx)
            self.idx += 1
        self.state = "running"
        try:
            self._send(ops)
        except Dead:
            self.state = "dead"
            return
        self.pump()

    def pump(self):
        """Run until the next gate or the end of the batch. Returns the events this caused."""
        first = len(self.ev)
        deadline = time.time() + self.wall
        while True:
            while b"\n" in self.buf:
                line, self.buf = self.buf.split(b"\n", 1)
                e = json.loads(line)
                if e["e"] == "gate":
                    self.state, self.gate = "gate", e
                    self.gates += 1
                    return self.ev[first:]
                if e["e"] == "batch":
                    self.t, self.steps, self.ended = e["t"], e["steps"], e["ended"]
                    self.state = "idle"
                    return self.ev[first:]
                self.ev.append(deep(e))
            left = deadline - time.time()
            if left <= 0 or not select.select([self.fd], [], [], left)[0]:
                self.kill()
                self.hung = True
                return self.ev[first:]
            b = os.read(self.fd, 1 << 20)
            if not b:
                self.p.wait()
                self.state = "dead"
                return self.ev[first:]
            self.buf += b

    def release(self):
        try:
            self.p.stdin.write(b"\n")
        except BrokenPipeError:
            self.p.wait()
            self.state = "dead"
            return []
        self.state = "running"
        return self.pump()

    def kill(self):
        if self.p.poll() is None:
            self.p.kill()
        self.p.wait()
        self.state = "dead"


def interleave(rd, servers, todo, begin, seen, out):
    """Let the processes take their steps in the order the round's schedule says."""
    kills = {k: n for k, n in rd["kills"]}     # after so many steps, or ["op", n]: right after the n-th such operation
    ops = {}
    base = {n: servers[n].gates for n in todo}
    sched = [list(x) for x in rd["sched"]]
    turns = 0
    while True:
        ready = [n for n in sorted(todo) if servers[n].state != "dead" and (servers[n].state == "gate" or todo[n])]
        if not ready:
            return None
        if sched:
            n = ready[sched[0][0] % len(ready)]
            sched[0][1] -= 1
            if sched[0][1] <= 0:
                sched.pop(0)
        else:
            n = ready[turns // 200 % len(ready)]
            # whoever waits for a lock lets the others go on
            if servers[n].state == "gate" and servers[n].gate["op"] == "blocked":
                n = ready[turns % len(ready)]
        turns += 1
        if turns > 40000:
            waiting = {n: (servers[n].state, servers[n].gate if servers[n].state == "gate" else todo[n][:1]) for n in ready}
            return "stuck", f"the processes do not come to an end: {waiting}"
        s = servers[n]
        if n in kills and (s.gates - base[n] >= kills[n] if isinstance(kills[n], int) else ops.get((n, kills[n][0]), 0) >= kills[n][1]):
            s.kill()
            if out is not None:
                out.count("fault:process killed")
            continue
        before = len(s.ev)
        if s.state == "gate":
            key = (n, s.gate["op"])
            ops[key] = ops.get(key, 0) + 1
            s.release()
        else:
            begin(n)
        if s.hung:
            return "hang", f"process {n} does not come to rest after {s.gate['op']} {s.gate['path']}"
        for e in s.ev[before:]:
            seen(n, e)


def op_msg(op, nid):
    """A step of a server's script -> batch for the executor"""
    if op[0] == "allow":
        return [["send", {"jsonrpc": "2.0", "id": nid, "method": "workspace/executeCommand",
                          "params": {"command": "styx.allowExtension", "arguments": [{"command": op[1]}]}}], ["wait", 50]]
    if op[0] == "init":
        return [["send", {"jsonrpc": "2.0", "id": nid, "method": "initialize", "params": INIT}],
                ["send", {"jsonrpc": "2.0", "method": "initialized", "params": {}}], ["wait", 50]]
    if op[0] == "open":
        return [["send", {"jsonrpc": "2.0", "method": "textDocument/didOpen", "params":
                          {"textDocument": {"uri": op[1], "languageId": "styx", "version": 1, "text": op[2]}}}], ["wait", op[3]]]
    if op[0] == "wait":
        return [["wait", op[1]]]
    raise HarnessError(f"script {op}")


def paths_of(root, xdg):
    conf = root + ("/config" if xdg else "/home/.config")
    return conf, conf + "/styx/config.styx"


SETTINGS = ["theme dark", 'font "Iosevka 12"', "editor {tab 2, wrap @true}", "// a comment", "/// doc comment\nverbose @true", "list (a b (c d))",
            "note <<EOT\nallowed_extensions (none)\nEOT", 'path r#"C:\\x"#', "meta { @schema crate:styx-lsp-config@1 }", "größe 日本", "", "limits {a {b {c 1}}}",
            "allowed 3", '"quoted key" 1', "last @unit", "x {\n  // inner\n  y 1\n}"]


def gen_config(r, progs):
    """-> (content or None or {"hex"}, sure): sure = the names it allows if that is certain, "damaged" or None"""
    known = r.sample(progs, r.below(min(4, len(progs)) + 1)) if progs else []
    l = "allowed_extensions " + listing(r, known)
    k = r.weighted([("plain", 6), ("settings", 8), ("braces", 2), ("none", 4), ("empty", 1), ("nolist", 3), ("forms", 3), ("damaged", 4), ("notext", 1),
                    ("wrong", 2)])
    if k == "none":
        return None, []
    if k == "empty":
        return r.pick(["", "\n", "// nothing\n", "\r\n"]), []
    sets = list(dict.fromkeys(r.sample(SETTINGS, r.below(5))))
    if k == "plain":
        return r.pick([l, l + "\n", l + "\n\n", l + " // end\n", "\ufeff"[:0] + l + "\n"]), known
    if k == "settings" or k == "nolist":
        ls = sets + ([l] if k == "settings" else [])
        if "meta { @schema crate:styx-lsp-config@1 }" in ls:
            ls.remove("meta { @schema crate:styx-lsp-config@1 }")
            r.shuffle(ls)
            ls.insert(0, "meta { @schema crate:styx-lsp-config@1 }")
        else:
            r.shuffle(ls)
        t = r.pick(["\n", "\n\n"]).join(ls) + r.pick(["\n", "", "\n// the end", "\n// the end\n"])
        return t, (known if k == "settings" else [])
    if k == "braces":
        return "{" + r.pick([", ", "\n"]).join(r.pick([[l, "theme dark"], [l], ["theme dark"], ["theme dark", "x {a 1}"]])) + r.pick(["}", "}\n", "\n}\n"]), None
    if k == "forms":
        items = [r.pick([esc(p), esc(p), f'r#{chr(34)}{p}{chr(34)}#' if '"' not in p and "\n" not in p else esc(p)]) for p in known]
        return "allowed_extensions (" + r.pick(["", "\n  ", "  "]) + r.pick(["\n  ", "   ", " // one\n "]).join(items) + r.pick(["", " ", "\n"]) + ")\n" + "theme dark\n", known
    listed = "allowed_extensions " + listing(r, known or progs[:1])
    if k == "damaged":
        return r.pick([listed[:-1], listed + "\n}", listed + "\na {", "}\n" + listed, listed.replace("(", "((", 1), listed + '\nk "unterminated',
                       "<<<<<<< HEAD\n" + listed + "\n=======\n", listed + "\na b c d", listed + "\n@ {a", 'theme "dark\n' + listed]), "damaged"
    if k == "notext":
        return {"hex": (listed.encode() + r.pick([b"\xff\xfe", b"\n// \xc3\x28\n", b"\x80"])).hex()}, "damaged"
    return r.pick([f"allowed_extensions {esc((known or ['x'])[0])}\n", "allowed_extensions {a true}\n", "allowed_extensions ((a) (b))\n"]), None


ODD = ["two words", "with)paren", "line\nbreak", "// comment", "r#\"raw\"#", "{", "}", "\\back\\slash", "tab\there", "@tag", "<<EOT", "é\u0301", "🎉", "\u200b", "%s", "a=b",
       "x" * 300, "\"", "'", ",", "(", "true", "0", "@", "\r", "a\u0000b", "../x", "~/.bin/ext", " lead", "trail "]


def gen_kill(r, n):
    return 1 + r.below(n) if r.chance(40) else [r.pick(["rename", "rename", "rename", "fsync", "create", "mkdir", "write", "flock", "chmod", "unlink"]), 1 + r.below(3)]


def d01_case(i, r):
    progs = r.sample(PROGRAMS + ODD, 2 + r.below(5))
    few = r.sample(progs, 1 + r.below(2)) if r.chance(40) else progs
    if r.chance(20):
        progs += [x for x in r.sample(lookalikes(progs[0]), 2) if x not in progs and x]
    content, sure = gen_config(r, progs)
    xdg = r.chance(75)
    rounds = []
    nserv = 0
    alive = []
    for k in range(1 + r.weighted([(0, 5), (1, 4), (2, 2)])):
        fresh = r.weighted([(1, 5), (2, 5), (3, 2)]) if k == 0 else r.weighted([(0, 3), (1, 5), (2, 2)])
        scripts = {}
        for _ in range(fresh):
            scripts[str(nserv)] = [["init"]]
            alive.append(nserv)
            nserv += 1
        for s in alive:
            if r.chance(85):
                sc = scripts.setdefault(str(s), [])
                for _ in range(1 + (r.below(3) == 0)):
                    sc.append(["allow", r.pick(few)])
        end = r.weighted([("", 5), ("power", 3), ("edit", 3)])
        rd = {"scripts": scripts, "end": end}
        if end == "edit":
            rd["content"], rd["sure"] = gen_config(r, progs)
            rd["seed"] = 0
            if rd["content"] is None:
                rd["content"], rd["sure"] = "theme light\n", []
        if end == "power":
            rd["seed"] = r.below(1 << 20)
            alive = []
        # who runs for how many steps
        rd["sched"] = [[r.below(6), 1 + r.below(r.pick([1, 3, 30]))] for _ in range(r.pick([0, 4, 12, 40]))]
        rd["kills"] = [[r.pick(sorted(scripts)), gen_kill(r, 70)]] if r.chance(40) and scripts else []
        rounds.append(rd)
    faults = {}
    for s in range(nserv):
        if r.chance(35):
            fs = []
            for _ in range(1 + (r.below(3) == 0)):
                fs.append([1 + r.below(r.pick([20, 45, 90])), *r.pick([["err", 5], ["err", 28], ["err", 13], ["err", 4], ["err", 30], ["err", 122], ["err", 24], ["short", 1],
                                                                   ["short", 9], ["torn", 0], ["torn", 1 + r.below(60)], ["crash", 0], ["crashafter", 0]])])
            faults[str(s)] = {"faults": fs}
        elif r.chance(8):
            faults[str(s)] = {"sticky": [[r.below(40), r.pick(["write", "open", "meta", "sync", "read", "stat"]), r.pick([5, 28, 13, 30])]]}
        if r.chance(15):
            faults.setdefault(str(s), {})["segw"] = 1 + r.below(7)
        if r.chance(15):
            faults.setdefault(str(s), {})["segr"] = 1 + r.below(7)
        if r.chance(10):
            faults.setdefault(str(s), {})["eintr"] = 100
    layout = r.weighted([("plain", 12), ("filelink", 2), ("dirlink", 2), ("nodir", 3), ("dangling", 1), ("debris", 2)])
    return {"dir": f"{SCRATCH}/D01-{i}", "config": content, "sure": sure, "xdg": xdg, "rounds": rounds, "faults": faults, "layout": layout, "progs": progs,
            "mode": r.pick([0o644, 0o600]), "seed": 1 + r.below(1 << 30), "probe_power": r.below(1 << 20)}


def data_of(content):
    return None if content is None else bytes.fromhex(content["hex"]) if isinstance(content, dict) else content.encode("utf-8", "surrogateescape")


def lay_out(case):
    """The files before the first server starts."""
    root = case["dir"]
    fresh_dir(root)
    for d in ("home", "tmp", "w"):
        os.makedirs(f"{root}/{d}")
    conf, path = paths_of(root, case["xdg"])
    data = data_of(case["config"])
    lay = case["layout"]
    if lay == "nodir" and data is None:
        return
    os.makedirs(conf, exist_ok=True)
    if lay == "dirlink":
        os.makedirs(root + "/dots/styx")
        os.symlink(root + "/dots/styx", conf + "/styx")
    elif data is not None or lay in ("debris", "dangling"):
        os.makedirs(conf + "/styx")
    target = path
    if lay == "filelink" and data is not None:
        target = root + "/home/conf.styx"
        os.symlink("../" * (2 if case["xdg"] else 3) + "home/conf.styx" if case["xdg"] else target, path)
    if lay == "dangling" and data is None:
        os.symlink(root + "/home/conf.styx", path)
    if lay == "debris":
        for n in (f".styx-{4242}-0.tmp", ".styx-4243-0.tmp", "config.styx.lock", "config.styx.tmp", "config.tmp"):
            with open(conf + "/styx/" + n, "w") as f:
                f.write("allowed_extensions (evil")
    if data is not None:
        with open(target, "wb") as f:
            f.write(data)
        os.chmod(target, case["mode"])


class Loader:
    """What a later session allows, by asking one."""

    def __init__(self, case):
        self.progs = list(dict.fromkeys(case["progs"]))
        self.dir = case["dir"] + ".probe"
        self.cache = {}
        self.runs = 0

    def __call__(self, data):
        if data in self.cache:
            return self.cache[data]
        root = self.dir
        fresh_dir(root)
        for d in ("home", "tmp", "w", "config/styx"):
            os.makedirs(f"{root}/{d}")
        if data is not None:
            with open(root + "/config/styx/config.styx", "wb") as f:
                f.write(data)
        ops = op_msg(["init"], 1)
        for k, p in enumerate(self.progs):
            with open(f"{root}/w/s{k}.styx", "w") as f:
                f.write(f"meta {{\n  id s{k}\n  version 1.0.0\n  lsp {{launch ({esc2(p)})}}\n}}\nschema {{\n  @ @object{{a @string}}\n}}\n")
            ops += op_msg(["open", f"file://{root}/w/d{k}.styx", f"@schema s{k}.styx\na x\n", 20], 2)
        ops.append(["wait", 500])
        with Session(root, {"seed": 3, "reply_ms": 0}) as s:
            try:
                s.batch([o for o in ops])
            except Dead as e:
                res = f"the server {e.why}"
            else:
                res = frozenset(e["program"] for e in s.ev if e["e"] == "spawn") & frozenset(self.progs)
        self.runs += 1
        self.cache[data] = res
        return res


def esc2(s):
    return '"' + "".join({"\\": "\\\\", '"': '\\"', "\n": "\\n", "\r": "\\r", "\t": "\\t"}.get(c, c if ord(c) >= 32 else f"\\u{{{ord(c):x}}}") for c in s) + '"'


def settings(o, data):
    """Everything in the file but the list: [(key, value)], or None when it does not parse."""
    if data is None:
        return []
    try:
        text = data.decode()
    except UnicodeDecodeError:
        return None
    a = o.ask(q="parse", text=text)
    if not a.get("ok") or a.get("errors"):
        return None

    def strip(v):
        return {k: ([dict(strip(e["v"]), key=e["key"], unit=e["unit"], doc=e["doc"]) for e in x] if k == "obj" else [strip(y) for y in x] if k == "seq" else x)
                for k, x in v.items() if k != "s"}
    root = a["outline"]
    if len(root.get("obj") or []) == 1 and root["obj"][0]["unit"] and root["obj"][0]["v"].get("obj") is not None:
        root = root["obj"][0]["v"]      # the whole file in braces
    return [(e["key"], e["unit"], e["doc"], strip(e["v"])) for e in root.get("obj") or [] if e["key"] != "allowed_extensions"]


def d01_run(case, out=None):
    root = case["dir"]
    v = []
    lay_out(case)
    conf, path = paths_of(root, case["xdg"])
    load, o = Loader(case), shared_oracle()
    servers = {}
    env = {"XDG_CONFIG_HOME": root + "/config"} if case["xdg"] else {"XDG_CONFIG_HOME": ""}
    log = root + ".log"
    nid = 10
    try:
        if os.path.exists(log):
            os.unlink(log)
        open(log, "w").close()
        initial, epoch, start = disk.snapshot(root), [], 0       # epoch: [(log size, program)] acknowledged since the snapshot
        sure = case["sure"]
        attempted = set()
        for rn, rd in enumerate(case["rounds"]):
            todo = {}
            for name in sorted(rd["scripts"], key=int):
                if name not in servers:
                    f = case["faults"].get(name, {})
                    plan = {k: f[k] for k in ("segw", "segr", "eintr", "faults", "sticky") if k in f}
                    pid = next(p for p in range(4242, 4300) if p not in [s.pid for s in servers.values() if s.state != "dead"])
                    servers[name] = Gated(root, {"seed": case["seed"] + int(name), "reply_ms": 0}, dict(plan, pid=pid, seed=case["seed"] + int(name), log=log, keep=1), env)
                    servers[name].pid = pid
                if servers[name].state != "dead":
                    todo[name] = [list(x) for x in rd["scripts"][name]]
            def begin(n):
                nonlocal nid
                op = todo[n].pop(0)
                nid += 1
                current[n] = (nid, op)
                if op[0] == "allow":
                    attempted.add(op[1])
                servers[n].start(op_msg(op, nid))

            def seen(n, e):
                if e["e"] == "recv" and "method" not in e["m"] and n in current and e["m"].get("id") == current[n][0] and current[n][1][0] == "allow":
                    ok = "error" not in e["m"]
                    if out is not None:
                        out.count("reach:allow acknowledged" if ok else "reach:allow refused")
                    if ok:
                        epoch.append((os.path.getsize(log), current[n][1][1]))
            current = {}
            stuck = interleave(rd, servers, todo, begin, seen, out)
            if stuck:
                return [stuck]
            # --- judge what has happened since the snapshot
            with open(log, "rb") as f:
                f.seek(start)
                text = f.read()
            v += judge(case, rn, initial, text, [(n - start, p) for n, p in epoch], attempted, sure, path, load, o, out)
            if v:
                return v
            if rd["end"] == "power":
                for s in servers.values():
                    s.kill()
                    s.close()
                _, _, ops, _ = disk.parse_log(text.decode())
                images = list(disk.power_loss_images(initial, ops, Rng(rd["seed"]), 40))
                d = Rng(rd["seed"], "pick").pick(images)[1] if images else initial
                disk.materialise(d, root)
                for x in ("home", "tmp", "w"):
                    os.makedirs(f"{root}/{x}", exist_ok=True)
                if out is not None:
                    out.count("fault:power loss")
                initial, epoch, attempted, start = disk.snapshot(root), [], set(), os.path.getsize(log)
            elif rd["end"] == "edit":
                # The user saves the file with an editor of theirs.
                data = data_of(rd["content"])
                target = os.path.realpath(path)
                if target.startswith(root + "/"):
                    os.makedirs(os.path.dirname(target), exist_ok=True)
                    with open(target + ".new", "wb") as f:
                        f.write(data)
                    os.rename(target + ".new", target)
                    initial, epoch, attempted, sure, start = disk.snapshot(root), [], set(), rd["sure"], os.path.getsize(log)
        for s in servers.values():
            s.kill()
            s.close()
        v += last_word(case, path, sure, load, o, env)
    finally:
        steps = sum(s.gates for s in servers.values())
        if out is not None:
            out.count("steps", steps)
            out.count("runs", len(servers) + load.runs)
            for n, s in servers.items():
                out.state(n, s.gates, len(s.ev), s.state)
        for s in servers.values():
            s.kill()
            s.close()
        remove_tree(case["dir"])
        for x in (".probe", ".side", ".probe.side"):
            if os.path.isdir(case["dir"] + x):
                remove_tree(case["dir"] + x)
        if os.path.exists(case["dir"] + ".log"):
            os.unlink(case["dir"] + ".log")
    return v


def damaged(o, data):
    """Certainly no configuration."""
    try:
        return not o.ask(q="parse", text=data.decode()).get("ok")
    except UnicodeDecodeError:
        return True


def judge(case, rn, initial, text, acks, attempted, sure, path, load, o, out):
    steps, faults, ops, escapes = disk.parse_log(text.decode())
    if out is not None:
        for _, cls, what in faults:
            out.count(f"fault:{cls} {what.split(' ')[0]}")
    for op, p in escapes:
        return [("escape", f"the server changed {p} ({op})")]
    where = [i for i in range(len(text)) if text.startswith(b"m ", i) and (i == 0 or text[i - 1] == 10)] if acks else []
    acks = [(sum(1 for w in where if w < n), p) for n, p in acks]     # number of operations before it
    old = initial.read(path)
    if sure == "damaged" and old is not None and not damaged(o, old):
        sure = None
    had, kept = load(old), settings(o, old)
    told = f"round {rn}; the file held {clip(old)}, allowing {sorted(had) if isinstance(had, frozenset) else had}; commands for {sorted(attempted)}"
    memo = {}

    def check(data, k, after):
        acked = frozenset(p for n, p in acks if n <= k)
        key = (data, acked)
        if key in memo:
            return memo[key]
        memo[key] = res = verdict(data, acked)
        return res

    def verdict(data, acked):
        if sure == "damaged" and data != old:
            return "overwritten", f"a file that cannot be understood was replaced by {clip(data)}"
        got = load(data)
        if not isinstance(got, frozenset):
            return "unloadable", f"with {clip(data)} {got}"
        if acked - got:
            return "acknowledged-lost", f"allowing {sorted(acked - got)} was acknowledged, but with {clip(data)} a later session does not"
        if isinstance(had, frozenset):
            if had - got:
                return "allowed-lost", f"{sorted(had - got)} were allowed before; with {clip(data)} a later session allows {sorted(got)}"
            if got - had - attempted:
                return "allowed-extra", f"nobody allowed {sorted(got - had - attempted)}: {clip(data)}"
        if kept is not None and data != old:
            s = settings(o, data)
            if s is None:
                return "torn", f"the file holds {clip(data)}"
            rest = iter(s)
            if not all(x in rest for x in kept):
                return "settings-lost", f"settings are missing from {clip(data)}"
            if old is not None and len(s) != len(kept):
                return "settings-added", f"settings that nobody made are in {clip(data)}"
        return None

    # The file as it is after every operation: what a crash of the process leaves.
    d = initial.copy()
    last = None
    for k in range(len(ops) + 1):
        if k:
            op = ops[k - 1]
            if op.kind == "write":
                d.data[op.a[0]] = disk.write_at(d.data.get(op.a[0], b""), op.a[1], op.a[2])
            elif op.kind not in ("sync", "syncdir"):
                disk.apply_meta(d, op)
        bad = check(d.read(path), k, "process")
        if bad:
            return [(bad[0], f"{bad[1]}\nafter operation {k} of {len(ops)} ({last_ops(case, ops, k)})\n{told}")]
    # And what a power loss leaves.
    r = Rng(case["probe_power"], rn)
    points = {len(ops)} | {n for n, _ in acks} | {r.below(len(ops) + 1) for _ in range(3)}
    for k in sorted(points)[:8]:
        for desc, img in disk.power_loss_images(initial, ops[:k], r, 30):
            if out is not None:
                out.count("fault:power loss")
            bad = check(img.read(path), k, "power")
            if bad:
                return [(bad[0] + "-by-power-loss", f"{bad[1]}\nafter a power loss after operation {k} of {len(ops)} ({last_ops(case, ops, k)}): {desc}\n{told}")]
    return []


def last_ops(case, ops, k):
    def show(x):
        return x.replace(case["dir"], "$ROOT") if isinstance(x, str) else repr(x)[:40]
    return "; ".join(op.kind + " " + " ".join(show(a) for a in op.a) for op in ops[max(0, k - 4):k])


def last_word(case, path, sure, load, o, env):
    """No faults any more: allowing something works."""
    if sure in (None, "damaged") or case["layout"] == "dangling":
        return []
    data = initial_data(path)
    if settings(o, data) is None:
        return []
    p = "prog-final"
    load.progs = list(dict.fromkeys(load.progs + [p]))
    load.cache.clear()
    had = load(data)
    with Session(case["dir"], {"seed": 5, "reply_ms": 0}, env=env) as s:
        s.batch(op_msg(["init"], 1))
        ev = s.batch(op_msg(["allow", p], 2))
    ans = [e["m"] for e in ev if e["e"] == "recv" and e["m"].get("id") == 2]
    now = initial_data(path)
    if not ans or "error" in ans[0]:
        return [("blocked", f"with no fault any more, allowing {p} is refused: {ans}\nthe file holds {clip(data)}")]
    got = load(now)
    if not isinstance(got, frozenset) or p not in got or not had <= got:
        return [("acknowledged-lost", f"allowing {p} turned {clip(data)}\ninto {clip(now)}\nwith which a later session allows {got}")]
    return []


def initial_data(path):
    try:
        with open(path, "rb") as f:
            return f.read()
    except OSError:
        return None


_ORACLE = [None]


def shared_oracle():
    if _ORACLE[0] is None or _ORACLE[0][0] != os.getpid():
        _ORACLE[0] = (os.getpid(), Oracle())
    return _ORACLE[0][1]


def d01_work(i, out):
    r = Rng("D01", SEED, i)
    case = d01_case(i, r)
    for cls, text in d01_run(case, out):
        out.violation(cls, text, case)
    if i < 3:
        out.samples.append({k: case[k] for k in ("config", "layout", "rounds", "faults")})


def d01_shrink(case):
    c = copy.deepcopy
    for n in range(len(case["rounds"]) - 1, -1, -1):
        if len(case["rounds"]) > 1:
            x = c(case)
            gone = x["rounds"].pop(n)
            if n < len(x["rounds"]):
                # servers that started there start later
                for name, sc in gone["scripts"].items():
                    if sc and sc[0] == ["init"] and name in x["rounds"][n]["scripts"]:
                        x["rounds"][n]["scripts"][name].insert(0, ["init"])
            yield x
    for n, rd in enumerate(case["rounds"]):
        for name in sorted(rd["scripts"]):
            x = c(case)
            for later in x["rounds"]:
                later["scripts"].pop(name, None)
                later["kills"] = [k for k in later["kills"] if k[0] != name]
            if any(q["scripts"] for q in x["rounds"]):
                yield x
            for k in range(len(rd["scripts"][name]) - 1, 0, -1):
                x = c(case)
                x["rounds"][n]["scripts"][name].pop(k)
                yield x
        if rd["kills"]:
            x = c(case)
            x["rounds"][n]["kills"] = []
            yield x
        if rd["end"]:
            x = c(case)
            x["rounds"][n]["end"] = ""
            yield x
        for cut in (0, len(rd["sched"]) // 2, len(rd["sched"]) - 1):
            if 0 <= cut < len(rd["sched"]):
                x = c(case)
                x["rounds"][n]["sched"] = rd["sched"][:cut]
                yield x
    for name in sorted(case["faults"]):
        x = c(case)
        del x["faults"][name]
        yield x
        for key in sorted(case["faults"][name]):
            x = c(case)
            if key in ("faults", "sticky") and len(x["faults"][name][key]) > 1:
                for j in range(len(x["faults"][name][key])):
                    y = c(case)
                    y["faults"][name][key].pop(j)
                    yield y
            del x["faults"][name][key]
            yield x
    if case["layout"] != "plain":
        yield dict(c(case), layout="plain")
    if isinstance(case["config"], str) and "\n" in case["config"] and case["sure"] != "damaged":
        ls = case["config"].split("\n")
        for j in range(len(ls)):
            if "allowed_extensions" not in ls[j]:
                yield dict(c(case), config="\n".join(ls[:j] + ls[j + 1:]))
    if len(case["progs"]) > 1:
        for p in case["progs"]:
            used = json.dumps(case["rounds"]) + json.dumps(case["config"])
            if json.dumps(p)[1:-1] not in used:
                yield dict(c(case), progs=[q for q in case["progs"] if q != p])


def make_d01():
    return Check("D01", d01_work, d01_run, {"quick": 3000, "thorough": 120000}, shrink=d01_shrink, prepare=build_lsp,
                 rule="seeded configurations, one to seven server processes in up to three rounds, their system calls interleaved one at a time by a seeded scheduler, with disk errors, short and torn writes, kills, power losses and edits by the user; the file judged after every operation and after sampled power losses by starting a later session; distinct = distinct (process, steps, events, end)",
                 components=COMPONENTS, assumptions=DISK_ASSUME)


DISK_ASSUME = ["after a power loss directory changes survive as a prefix of the order they were made in and syncing anything makes earlier ones durable, or (the stricter model, also sampled) each directory has its own prefix that only syncing it advances; unsynced data may be lost, zeroed or cut",
               "one process holds an advisory lock at a time (flock of the sandbox's kernel)"]
