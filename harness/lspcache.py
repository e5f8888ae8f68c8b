"""D02: the cache of embedded schemas, shared by servers and the command-line tool."""
import re
from urllib.parse import unquote, urlparse
from lspsave import *
from clicases import embed_blob
from cli import PRELOAD, STYX, tree_of
import lspsave

IDS = ["plain", "crate:tool-config@1", "../../../../home/evil", "../up", "/abs/path", "a/b", "a_b", "a%2Fb", "a..b", "..", ".", "a\\b", "ümläut-日本", "x y", "CON", "A/B", "a/../b",
       "z" * 190, "z" * 300, "z" * 300 + "y", "tab\tid", "new\nline", "a%b", ".hidden", "embedded", "a.styx", "-rf", "~", "$HOME", "a//b", "é" * 120]
CLIS = ["tool", "tool2", "Tool", "my-tool", "tool.v1", "größe", "with space", "..tool", "..", "@tool", "t" * 180]


def case_text(sid, n, r):
    pad = "".join(f"    {w} @optional(@string)\n" for w in r.sample(["alpha", "beta", "gamma", "delta", "größe"], r.below(5)))
    return f"meta {{\n  id {esc2(sid)}\n  version {n}.0.0\n}}\nschema {{\n  @ @object{{\n    name @optional(@string)\n    num{n} @optional(@int)\n{pad}  }}\n}}\n" + "// filler\n" * r.pick([0, 0, 3, 600])


def d02_case(i, r):
    ids = r.sample(IDS, 1 + r.below(3))
    if r.chance(35):
        ids = (r.pick([["a/b", "a_b", "a%2Fb"], ["a/b", "a//b", "a/../b"], ["z" * 300, "z" * 300 + "y"], ["A/B", "a/b"], ["plain", "../plain"], ["..", ".", "../up"]]))[:1 + r.below(3)]
    clis = r.sample(CLIS, 1 + r.below(2))
    n = 0
    bins, docs = [], []          # bins[k]: list of versions, each {cli: [texts]}
    world = {}
    for c in clis:
        world[c] = []
        for sid in ids:
            if r.chance(75) or not world[c]:
                n += 1
                world[c].append([sid, case_text(sid, n, r)])
    for c in clis:
        for sid, _ in world[c]:
            name = c
            k = r.below(10)
            if k == 0:
                name = f"$ROOT/bin/{c}"
            elif k == 1:
                name = f"../../../w/../bin/{c}"
            elif k in (2, 3, 4):
                name = f"../../../bin/{c}"
            docs.append({"cli": name, "bin": c, "id": sid})
    versions = [world]
    rounds = []
    nserv, alive = 0, []
    for k in range(2 + r.below(3)):
        scripts = {}
        fresh = r.weighted([(1, 5), (2, 4), (3, 1)]) if k == 0 or not alive else r.weighted([(0, 4), (1, 4), (2, 2)])
        for _ in range(fresh):
            scripts[str(nserv)] = [["init"]]
            alive.append(nserv)
            nserv += 1
        same = r.below(len(docs))
        for s in alive:
            if r.chance(85):
                sc = scripts.setdefault(str(s), [])
                for _ in range(1 + r.below(2)):
                    d = same if r.chance(60) else r.below(len(docs))
                    sc.append(["doc", d, r.sample(["documentLink", "definition", "hover", "references"], 1 + r.below(3))])
        if r.chance(20):
            scripts["c" + str(k)] = [["clear"]] if r.chance(60) else [["stats"]]
        rd = {"scripts": scripts, "sched": [[r.below(6), 1 + r.below(r.pick([1, 3, 30]))] for _ in range(r.pick([0, 4, 12, 40]))],
              "kills": [[r.pick(sorted(scripts)), gen_kill(r, 60)]] if r.chance(40) and scripts else [],
              "end": r.weighted([("", 4), ("power", 3), ("damage", 5), ("upgrade", 3)])}
        if rd["end"] == "power":
            rd["seed"] = r.below(1 << 20)
            alive = []
        elif rd["end"] == "damage":
            rd["damage"] = [[r.below(8), r.pick(["cut", "flip", "flip", "empty", "grow", "zero", "dir", "link", "link-same", "other", "fifo", "gone", "case", "swap"]), r.below(1 << 20)] for _ in range(1 + r.below(3))]
        elif rd["end"] == "upgrade":
            w = copy.deepcopy(versions[-1])
            for c in w:
                for e in w[c]:
                    if r.chance(60):
                        n += 1
                        e[1] = r.pick([case_text(e[0], n, r), e[1].replace("num", "nun"), e[1] + "\n", e[1].upper().replace("META", "meta").replace("ID ", "id ") if False else e[1] + "// v2\n"])
            versions.append(w)
        rounds.append(rd)
    faults = {}
    for s in [str(x) for x in range(nserv)] + [n for rd in rounds for n in rd["scripts"] if n[0] == "c"]:
        if r.chance(40):
            faults[s] = {"faults": [[1 + r.below(r.pick([12, 30, 60])), *r.pick([["err", 5], ["err", 28], ["err", 13], ["err", 4], ["err", 30], ["err", 122], ["short", 1], ["short", 9], ["torn", 0],
                                                                             ["torn", 1 + r.below(200)], ["crash", 0], ["crashafter", 0]])] for _ in range(1 + r.below(2))]}
        elif r.chance(10):
            faults[s] = {"sticky": [[r.below(30), r.pick(["write", "open", "meta", "sync", "stat", "read"]), r.pick([5, 28, 13, 30])]]}
        if r.chance(15):
            faults.setdefault(s, {})["segw"] = r.pick([7, 50, 500])
        if r.chance(10):
            faults.setdefault(s, {})["segr"] = r.pick([30, 200, 1000])
        if r.chance(10):
            faults.setdefault(s, {})["eintr"] = 100
    # what else is in the cache directory
    extra = {}
    for j in range(r.pick([0, 0, 2, 5])):
        d = r.pick(["embedded/tool/old", "embedded/other/x/y", "crates/serde", "crates/a/1.0.0", "embedded", "crates", "", "embedded/tool", "unknown"])
        f = r.pick(["a.styx", "0123456789abcdef.styx", "b.txt", ".styx-99-0.tmp", "größe.styx", "c.styx.bak", "noext"])
        extra[(d + "/" + f).lstrip("/")] = r.pick(["", "x 1\n", "y" * 500])
    links = []
    if r.chance(20):
        links.append([r.pick(["embedded/link", "crates/link.styx", "embedded/tool/link.styx", "link"]), r.pick(["$ROOT/home", "$ROOT/home/keep.styx", "$ROOT/nowhere"])])
    return {"dir": f"{SCRATCH}/D02-{i}", "xdg": r.chance(75), "versions": versions, "docs": docs, "rounds": rounds, "faults": faults, "extra": extra, "links": links,
            "seed": 1 + r.below(1 << 30), "probe_power": r.below(1 << 20), "final": r.pick(["stats", "clear", "both"])}


class GatedCli(Gated):
    """The command-line tool, stopped before every step as the servers are."""

    def __init__(self, root, args, plan, env):
        self.root, self.ev, self.wall, self.gates, self.state = root, [], 60, 0, "new"
        self.args, self.side = args, root + ".side"
        os.makedirs(self.side, exist_ok=True)
        p = {"root": root, "log": "", "std": 0, "segr": 0, "segw": 0, "eintr": 0, "seed": 1, "entropy": 7, "pid": 4242, "time": 1700000000, "denyspawn": 1}
        p.update(plan)
        self.text = "".join(f"{k} {v}\n" for k, v in p.items() if k not in ("faults", "sticky", "keep"))
        for n, kind, v in p.get("faults", []):
            self.text += f"fault {n} {kind} {v}\n"
        for n, cls, e in p.get("sticky", []):
            self.text += f"sticky {n} {cls} {e}\n"
        self.env = {"PATH": "/nonexistent", "HOME": root + "/home", "TMPDIR": root + "/tmp", "LANG": "C.UTF-8", "LD_PRELOAD": PRELOAD, "RUST_BACKTRACE": "0"}
        self.env.update(env)
        self.buf, self.p = b"", None
        self.out = ""
        self.code = None

    def start(self, _):
        pf = f"{self.side}/plan-{id(self)}"
        with open(pf, "w") as f:
            f.write(self.text + "gate 1 0\n")
        self.env["SIMOS_PLAN"] = pf
        self.p = subprocess.Popen([STYX] + self.args, cwd=self.root, env=self.env, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, bufsize=0)
        self.fd = self.p.stdout.fileno()
        self.state = "running"
        self.pump()

    def pump(self):
        deadline = time.time() + self.wall
        while True:
            while b"\n" in self.buf:
                line, self.buf = self.buf.split(b"\n", 1)
                if line.startswith(b'{"e":"gate"'):
                    self.state, self.gate = "gate", json.loads(line)
                    self.gates += 1
                    return []
                self.out += line.decode("utf-8", "replace") + "\n"
            left = deadline - time.time()
            if left <= 0 or not select.select([self.fd], [], [], left)[0]:
                self.kill()
                self.hung = True
                return []
            b = os.read(self.fd, 1 << 20)
            if not b:
                self.p.wait()
                self.code = self.p.returncode
                self.state = "dead"
                return []
            self.buf += b

    def kill(self):
        if self.p is not None:
            super().kill()
        self.state = "dead"

    def close(self):
        if self.p is not None:
            super().close()


def doc_text(case, k):
    d = case["docs"][k]
    return f"@schema {{id {esc2(d['id'])}, cli {esc2(d['cli'].replace('$ROOT', case['dir']))}}}\nname x\n"


def cache_msgs(case, op, nid):
    if op[0] != "doc":
        return op_msg(op, nid)
    k = op[1]
    uri = f"file://{case['dir']}/w/d{k}.styx"
    res = [["send", {"jsonrpc": "2.0", "method": "textDocument/didOpen", "params": {"textDocument": {"uri": uri, "languageId": "styx", "version": 1, "text": doc_text(case, k)}}}],
           ["wait", 5]]
    for j, m in enumerate(op[2]):
        params = {"textDocument": {"uri": uri}}
        if m != "documentLink":
            params["position"] = {"line": 1, "character": 1}
        if m == "references":
            params["context"] = {"includeDeclaration": True}
        res.append(["send", {"jsonrpc": "2.0", "id": nid + j, "method": "textDocument/" + m, "params": params}])
    return res + [["wait", 20]]


def uris_in(v):
    if isinstance(v, dict):
        for k in v:
            yield from uris_in(v[k])
    elif isinstance(v, list):
        for x in v:
            yield from uris_in(x)
    elif isinstance(v, str):
        for m in re.finditer(r"file://[^\s)\]>\"]*", v):
            yield m.group(0)


def put_bins(case, n):
    root = case["dir"]
    os.makedirs(root + "/bin", exist_ok=True)
    for c, entries in case["versions"][n].items():
        p = f"{root}/bin/{c}"
        if c == "..":
            continue
        with open(p + ".new", "wb") as f:
            f.write(b"\x7fELFjunk" + b"".join(embed_blob(t) for _, t in entries) + b"\0\0pad")
        os.chmod(p + ".new", 0o755)
        os.rename(p + ".new", p)


def dirs_of(case):
    base = case["dir"] + ("/cache" if case["xdg"] else "/home/.cache")
    return base, base + "/styx/schemas"


def outside(case):
    """Everything that is not the cache: path -> entry."""
    root = case["dir"]
    t = tree_of(root, ("bin", "w"))
    base, cdir = dirs_of(case)
    rel = os.path.relpath(cdir, root)
    up = {os.path.relpath(base, root), os.path.relpath(base + "/styx", root), rel}
    return {k: v for k, v in t.items() if k not in up and not k.startswith(rel + "/")}


def entries_of(case):
    """What the tool counts: schemas in the cache's two directories -> (count, bytes) each."""
    _, cdir = dirs_of(case)
    res = {}
    for part in ("embedded", "crates"):
        n = b = 0
        top = f"{cdir}/{part}"
        if os.path.islink(top):
            res[part] = None
            continue
        for dp, _, fs in os.walk(top):
            for f in fs:
                p = f"{dp}/{f}"
                if f.endswith(".styx") and f != ".styx" and stat.S_ISREG(os.lstat(p).st_mode):
                    n += 1
                    b += os.lstat(p).st_size
        res[part] = (n, b)
    return res


def d02_run(case, out=None):
    root = case["dir"]
    base, cdir = dirs_of(case)
    fresh_dir(root)
    for d in ("home", "tmp", "w", "other"):
        os.makedirs(f"{root}/{d}")
    with open(root + "/home/keep.styx", "w") as f:
        f.write("keep me\n")
    os.makedirs(root + "/w/a/b")
    bystanders = [root + "/other/keep.styx"]
    if case["extra"] or case["links"]:
        bystanders += [base + "/styx/keep.styx", base + "/styx/other/keep.styx", base + "/embedded/keep.styx", base + "/keep.styx"]
    for p in bystanders:
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f:
            f.write("keep me\n")
    for rel, text in case["extra"].items():
        os.makedirs(os.path.dirname(f"{cdir}/{rel}"), exist_ok=True)
        with open(f"{cdir}/{rel}", "w") as f:
            f.write(text)
    for rel, target in case["links"]:
        p = f"{cdir}/{rel}"
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if not os.path.lexists(p):
            os.symlink(target.replace("$ROOT", root), p)
    version = 0
    put_bins(case, 0)
    env = {"PATH": root + "/bin", "XDG_CACHE_HOME": root + "/cache" if case["xdg"] else ""}
    log = root + ".log"
    open(log, "w").close()
    texts = {t for v in case["versions"] for es in v.values() for _, t in es}
    keep = outside(case)
    initial, start = disk.snapshot(root), 0
    servers, given, owner, nid, v = {}, {}, {}, 100, []
    try:
        for rn, rd in enumerate(case["rounds"]):
            todo, current, asked = {}, {}, {}
            for name in sorted(rd["scripts"]):
                if name not in servers:
                    f = case["faults"].get(name, {})
                    pid = next(p for p in range(4242, 4300) if p not in [s.pid for s in servers.values() if s.state != "dead"])
                    plan = dict({k: f[k] for k in ("segw", "segr", "eintr", "faults", "sticky") if k in f}, pid=pid, seed=case["seed"], log=log, keep=1)
                    if name[0] == "c":
                        servers[name] = GatedCli(root, ["cache"] + (["--clear"] if rd["scripts"][name][0][0] == "clear" else []), plan, env)
                    else:
                        servers[name] = Gated(root, {"seed": case["seed"] + int(name), "reply_ms": 0}, plan, env, root + "/w/a/b")
                    servers[name].pid = pid
                if servers[name].state != "dead":
                    todo[name] = [list(x) for x in rd["scripts"][name]]
            clearing = any(o[0][0] == "clear" for o in rd["scripts"].values() if o)

            def begin(n):
                nonlocal nid
                op = todo[n].pop(0)
                nid += 10
                current[n] = (nid, op)
                servers[n].start(cache_msgs(case, op, nid) if n[0] != "c" else None)

            def seen(n, e):
                if e["e"] != "recv" or n not in current or current[n][1][0] != "doc":
                    return
                m = e["m"]
                d = case["docs"][current[n][1][1]]
                if m.get("method") == "textDocument/publishDiagnostics":
                    k = int(re.search(r"/d(\d+)\.styx", m["params"]["uri"]).group(1))
                    d = case["docs"][k]
                elif "method" in m:
                    return
                want = next((t for sid, t in case["versions"][version].get(d["bin"], []) if sid == d["id"]), None)
                for u in set(uris_in(m.get("result", m.get("params")))):
                    p = unquote(urlparse(u).path)
                    if p.startswith(root + "/w/"):
                        continue
                    given_out(p, d, want, n)

            def given_out(p, d, want, n):
                if not p.startswith(cdir + "/"):
                    v.append(("outside", f"for schema {d['id']!r} of {d['cli']!r} the server gave out {p}, which is not in its cache"))
                    return
                try:
                    if not stat.S_ISREG(os.lstat(p).st_mode):
                        v.append(("not-a-file", f"for schema {d['id']!r} of {d['cli']!r} the server gave out {p}, which is not a regular file"))
                        return
                    with open(p, "rb") as f:
                        got = f.read().decode("utf-8", "surrogateescape")
                except FileNotFoundError:
                    if not clearing:
                        v.append(("missing", f"for schema {d['id']!r} of {d['cli']!r} the server gave out {p}, which does not exist"))
                    return
                except OSError as e:
                    v.append(("missing", f"for schema {d['id']!r} of {d['cli']!r} the server gave out {p}: {e}"))
                    return
                if out is not None:
                    out.count("reach:cached copy handed out")
                if want is not None and got != want:
                    v.append(("wrong-text", f"for schema {d['id']!r} of {d['cli']!r} the server gave out {p}\nwith {clip(got)}\ninstead of {clip(want)}"))
                if want is not None and owner.setdefault(p, want) != want:
                    v.append(("shared", f"{p} was given out for two different schemas\n{clip(owner[p])}\nand {clip(want)}"))
            stuck = interleave(rd, servers, todo, begin, seen, out)
            if stuck:
                v.append(stuck)
            with open(log, "rb") as f:
                f.seek(start)
                text = f.read()
            v += judge(case, rn, initial, text, texts, owner, out)
            now = outside(case)
            if now != keep:
                v.append(("outside", f"round {rn}: outside of the cache changed " + ", ".join(sorted(k for k in set(now) | set(keep) if now.get(k) != keep.get(k)))))
            for name, sc in rd["scripts"].items():
                s = servers.get(name)
                if name[0] == "c" and s.code is not None and sc and set(rd["scripts"]) == {name}:
                    pass
            if v:
                return v
            if rd["end"] == "power":
                for s in servers.values():
                    s.kill()
                    s.close()
                _, _, ops, _ = disk.parse_log(text.decode())
                images = list(disk.power_loss_images(initial, ops, Rng(rd["seed"]), 40))
                d = Rng(rd["seed"], "pick").pick(images)[1] if images else initial
                disk.materialise(d, root)
                for x in ("home", "tmp", "w/a/b", "other"):
                    os.makedirs(f"{root}/{x}", exist_ok=True)
                put_bins(case, version)
                if out is not None:
                    out.count("fault:power loss")
            elif rd["end"] == "damage":
                damage(case, rd, out)
            elif rd["end"] == "upgrade" and version + 1 < len(case["versions"]):
                version += 1
                put_bins(case, version)
            initial, start = disk.snapshot(root), os.path.getsize(log)
        for s in servers.values():
            s.kill()
            s.close()
        v += counts(case, env, keep, out)
    finally:
        if out is not None:
            out.count("steps", sum(s.gates for s in servers.values()))
            out.count("runs", len(servers) + 1)
            for n, s in servers.items():
                out.state(n, s.gates, len(s.ev), s.state)
        for s in servers.values():
            s.kill()
            s.close()
        remove_tree(root)
        if os.path.exists(log):
            os.unlink(log)
    return v


def judge(case, rn, initial, text, texts, owner, out):
    root = case["dir"]
    base, cdir = dirs_of(case)
    ancestors = {base, base + "/styx", cdir, os.path.dirname(base)}
    steps, faults, ops, escapes = disk.parse_log(text.decode())
    if out is not None:
        for _, cls, what in faults:
            out.count(f"fault:{cls} {what.split(' ')[0]}")
    for op, p in escapes:
        return [("outside", f"round {rn}: an attempt to change {p} ({op})")]
    for op in ops:
        for a in op.a:
            if op.kind != "syncdir" and isinstance(a, str) and not a.startswith(cdir + "/") and not (a in ancestors and op.kind in ("mkdir", "rmdir")) and op.kind != "symlink":
                return [("outside", f"round {rn}: {op.kind} {a.replace(root, '$ROOT')}, which is not in the cache")]

    def check(d, k, why):
        for p, e in d.ent.items():
            if not p.startswith(cdir + "/") or not p.endswith(".styx") or e is None or e[0] != "f":
                continue
            data = d.data[e[1]]
            if initial.read(p) == data and p in initial.ent:
                continue
            t = data.decode("utf-8", "surrogateescape")
            if t not in texts or owner.get(p, t) != t:
                return [("left-behind" + why[0], f"round {rn}: {p.replace(root, '$ROOT')} holds {clip(t)}\nwhich is no schema that was cached there\nafter operation {k} of {len(ops)} ({last_ops(case, ops, k)}){why[1]}")]
        return []
    d = initial.copy()
    for k in range(len(ops) + 1):
        if k:
            op = ops[k - 1]
            if op.kind == "write":
                d.data[op.a[0]] = disk.write_at(d.data.get(op.a[0], b""), op.a[1], op.a[2])
            elif op.kind not in ("sync", "syncdir"):
                disk.apply_meta(d, op)
            else:
                continue
        bad = check(d, k, ("", ""))
        if bad:
            return bad
    r = Rng(case["probe_power"], rn)
    for k in sorted({len(ops)} | {r.below(len(ops) + 1) for _ in range(4)}):
        for desc, img in disk.power_loss_images(initial, ops[:k], r, 24):
            if out is not None:
                out.count("fault:power loss")
            bad = check(img, k, ("-by-power-loss", f"\nand a power loss: {desc}"))
            if bad:
                return bad
    return []


def damage(case, rd, out):
    """Somebody or something damages entries."""
    root = case["dir"]
    _, cdir = dirs_of(case)
    for pick, how, seed in rd["damage"]:
        files = sorted(os.path.join(dp, f) for dp, _, fs in os.walk(cdir) for f in fs if f.endswith(".styx") and stat.S_ISREG(os.lstat(os.path.join(dp, f)).st_mode))
        if not files:
            return
        p = files[pick % len(files)]
        st = os.stat(p)
        with open(p, "rb") as f:
            data = f.read()
        r = Rng(seed)
        new = None
        if how == "cut":
            new = data[:r.below(len(data) + 1)]
        elif how == "flip" and data:
            k = r.below(len(data))
            new = data[:k] + bytes([data[k] ^ (1 << r.below(8))]) + data[k + 1:]
        elif how == "empty":
            new = b""
        elif how == "grow":
            new = data + b"extra 1\n"
        elif how == "zero":
            new = b"\0" * len(data)
        elif how == "case":
            new = data.swapcase()
        elif how == "swap":
            new = data[len(data) // 2:] + data[:len(data) // 2]
        elif how == "other":
            with open(files[(pick + 1) % len(files)], "rb") as f:
                new = f.read()
        elif how == "gone":
            os.unlink(p)
        elif how == "dir":
            os.unlink(p)
            os.mkdir(p)
        elif how == "fifo":
            os.unlink(p)
            os.mkfifo(p)
        elif how in ("link", "link-same"):
            os.unlink(p)
            os.symlink(root + "/other/" + ("keep.styx" if how == "link" else "keep.styx"), p)
        if new is not None:
            with open(p, "wb") as f:
                f.write(new)
            if r.chance(60):
                os.utime(p, ns=(st.st_atime_ns, st.st_mtime_ns))
        if out is not None:
            out.count("fault:damaged entry")


def counts(case, env, keep, out):
    """Statistics and clearing, undisturbed."""
    root = case["dir"]
    _, cdir = dirs_of(case)
    want = entries_of(case)
    if None in want.values():
        return []

    def tool(args):
        s = GatedCli(root, ["cache"] + args, {}, env)
        s.start(None)
        while s.state == "gate":
            s.release()
        s.close()
        return s
    if case["final"] in ("stats", "both"):
        s = tool([])
        got = [tuple(map(int, m)) for m in re.findall(r"schemas: (\d+) \((\d+) bytes\)", s.out)]
        if s.code != 0 or got != [want["embedded"], want["crates"]]:
            return [("wrong-statistics", f"styx cache: exit {s.code}, {s.out!r}\nthe cache holds {want}")]
        if entries_of(case) != want:
            return [("wrong-statistics", "asking for the statistics changed the cache")]
    if case["final"] in ("clear", "both"):
        s = tool(["--clear"])
        n, b = (sum(x[k] for x in want.values()) for k in (0, 1))
        got = re.findall(r"Cleared (\d+) cached schemas \((\d+) bytes\)", s.out)
        if s.code != 0 or [tuple(map(int, m)) for m in got] != [(n, b)]:
            return [("wrong-clear", f"styx cache --clear: exit {s.code}, {s.out!r}\nthe cache held {want}")]
        left = [os.path.join(dp, f) for dp, _, fs in os.walk(cdir) for f in fs]
        if left:
            return [("not-cleared", f"styx cache --clear left {left}")]
        now = outside(case)
        if now != keep:
            return [("outside", "clearing changed " + ", ".join(sorted(k for k in set(now) | set(keep) if now.get(k) != keep.get(k))))]
    return []


def d02_work(i, out):
    case = d02_case(i, Rng("D02", SEED, i))
    for cls, text in d02_run(case, out):
        out.violation(cls, text, case)
    if i < 3:
        out.samples.append({k: case[k] for k in ("docs", "rounds", "faults")})


def d02_shrink(case):
    c = copy.deepcopy
    for n in range(len(case["rounds"]) - 1, -1, -1):
        if len(case["rounds"]) > 1 and case["rounds"][n]["end"] != "upgrade":
            x = c(case)
            gone = x["rounds"].pop(n)
            if n < len(x["rounds"]):
                for name, sc in gone["scripts"].items():
                    if sc and sc[0] == ["init"] and name in x["rounds"][n]["scripts"]:
                        x["rounds"][n]["scripts"][name].insert(0, ["init"])
            yield x
    for n, rd in enumerate(case["rounds"]):
        for name in sorted(rd["scripts"]):
            x = c(case)
            for later in x["rounds"]:
                later["scripts"].pop(name, None)
                later["kills"] = [k for k in later["kills"] if k[0] != name]
            if any(q["scripts"] for q in x["rounds"]):
                yield x
            for k in range(len(rd["scripts"][name]) - 1, 0, -1):
                x = c(case)
                x["rounds"][n]["scripts"][name].pop(k)
                yield x
        if rd["kills"]:
            x = c(case)
            x["rounds"][n]["kills"] = []
            yield x
        if rd["end"] and rd["end"] != "upgrade":
            x = c(case)
            x["rounds"][n]["end"] = ""
            yield x
        for j in range(len(rd.get("damage", []))):
            if len(rd["damage"]) > 1:
                x = c(case)
                x["rounds"][n]["damage"].pop(j)
                yield x
        for cut in (0, len(rd["sched"]) // 2, len(rd["sched"]) - 1):
            if 0 <= cut < len(rd["sched"]):
                x = c(case)
                x["rounds"][n]["sched"] = rd["sched"][:cut]
                yield x
    for name in sorted(case["faults"]):
        x = c(case)
        del x["faults"][name]
        yield x
    for k in sorted(case["extra"]):
        x = c(case)
        del x["extra"][k]
        yield x
    if case["links"]:
        yield dict(c(case), links=[])


def build_both():
    build_lsp()
    build_cli()


def make_d02():
    return Check("D02", d02_work, d02_run, {"quick": 2200, "thorough": 80000}, shrink=d02_shrink, prepare=build_both,
                 rule="seeded binaries, schema names and cache contents; servers and cache commands in two to four rounds, their system calls interleaved one at a time by a seeded scheduler, with disk errors, short and torn writes, kills, power losses, damaged entries and upgraded binaries; distinct = distinct (process, steps, events, end)",
                 components=COMPONENTS, assumptions=DISK_ASSUME)
