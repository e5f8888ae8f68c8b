"""E03, E04: consent to extension programs, and the life of their processes."""
from lspprops import *

PROGRAMS = ["prog", "styx-ext", "größe-lsp", "/opt/tools/ext 0", "./rel/ext", "tool", "Prog", "ext-日本", "a\"b", "ext.sh", "x"]


def lookalikes(p):
    import unicodedata
    res = [p + "0", p[:-1], p.upper(), p.lower(), p.capitalize(), " " + p, p + " ", "./" + p, "/usr/bin/" + p, p + ".exe", "x" + p, p + " --lsp", p + "/", p + ",", p + "\n",
           p.split("/")[-1], p.split(".")[0], p.split(" ")[0], "*", p[:1] + "*", "", unicodedata.normalize("NFD", p), p.replace("-", "_"), f'"{p}"', p + "\u200b",
           p.replace("o", "\u043e"), "(" + p + ")", p + " " + p, p * 2]
    return [x for x in dict.fromkeys(res) if x != p]


def esc(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n") + '"'


def listing(r, names):
    items = [esc(n) if r.chance(80) or not n.isalnum() else n for n in names]
    return "(" + r.pick([" ", " ", "\n  "]).join(items) + ")"


def gen_config(r, progs):
    """-> (files, names certainly allowed by it, plan faults)"""
    exact = [p for p in progs if r.chance(35)]
    near = [x for p in progs for x in r.sample(lookalikes(p), 1 + r.below(3)) if r.chance(60) and x not in progs]
    names = exact + near
    r.shuffle(names)
    path = "config/styx/config.styx"
    text = f"allowed_extensions {listing(r, names)}\n"
    if r.chance(30):
        text = r.pick(["meta { @schema crate:styx-lsp-config@1 }\n\n", "// my settings\n", "theme dark\n", "/// doc\n"]) + text
    if r.chance(25):
        text += r.pick(["other {a 1}\n", "// allowed_extensions (prog tool x)\n", "allowed (prog styx-ext tool)\n", "denied_extensions (prog)\n"])
    k = r.weighted([("valid", 12), ("missing", 3), ("empty", 2), ("damaged", 6), ("unreadable", 3), ("directory", 1), ("notext", 2), ("wrong", 2), ("link", 1)])
    if k == "valid":
        return {path: text}, names, {}
    if k == "missing":
        return {}, [], {}
    if k == "empty":
        return {path: r.pick(["", "\n", "allowed_extensions ()\n", "allowed_extensions\n"])}, [], {}
    listed = f"allowed_extensions {listing(r, progs)}\n"
    if k == "damaged":
        t = r.pick([listed[:-3], listed + "}", listed + "a {", "}" + listed, listed + listed, listed.replace("(", "(("), listed + 'k "unterminated',
                    listed + "allowed_extensions 3", "<<<<<<< HEAD\n" + listed + "=======\n", listed + "a b c", listed.replace(")", "")])
        return {path: t}, [], {}
    if k == "notext":
        return {path: {"hex": (listed.encode() + r.pick([b"\xff\xfe", b"// \xc3\x28\n", b"\x80"])).hex()}}, [], {}
    if k == "wrong":
        return {path: r.pick([f"allowed_extensions {esc(progs[0])}\n", f"allowed_extensions {{{esc(progs[0])} true}}\n", f"{esc(progs[0])}\n", f"x {{{listed}}}\n",
                              f"allowed_extensions ({esc(progs[0])} {{a 1}})\n"])}, [], {}
    if k == "directory":
        return {path: None}, [], {}
    if k == "link":
        return {path: {"link": "$ROOT/home/conf.styx"}, "home/conf.styx": text}, names, {}
    return {path: listed}, [], {"sticky": [[0, r.pick(["read", "open"]), r.pick([5, 13, 12])]]}


def e03_case(i, r):
    n = 1 + r.below(3)
    progs = r.sample(PROGRAMS, n)
    if n > 1 and r.chance(40):
        progs[1] = r.pick([x for x in lookalikes(progs[0]) if x.strip() and x not in progs])
    files, schemas = {}, []
    for k in range(n):
        launch = [progs[k]] + [r.pick(["--lsp", "serve", "größe x", "", "-v", "tool", "a b"]) for _ in range(r.pick([0, 1, 2, 2, 5]))]
        if r.chance(6):
            launch = None
        sc = G.gen_schema(r, k, None)
        sc["launch"] = launch
        text = schema_text(sc)
        if r.chance(30):
            sc["cli"] = f"tool{k}"
            from clicases import embed_blob
            files[f"bin/tool{k}"] = {"hex": (b"\x7fELFjunk" + embed_blob(text) + b"\0\0pad").hex(), "mode": 0o755}
        else:
            sc["file"] = f"s{k}.styx"
            files[f"w/s{k}.styx"] = text
        schemas.append(sc)
    conf, sure, plan = gen_config(r, progs)
    files.update(conf)
    files["w/.keep"] = ""
    exts = {p: [r.pick([{}, healthy(r)])] if r.chance(75) else [r.pick([{"spawn_err": True}, {"handshake": "never"}, {"handshake": "exit"}, {"init": "exit"}, {"init_ms": 60000}]), {}] for p in progs}
    case = {"dir": f"{SCRATCH}/E03-{i}", "files": files, "seed": 1 + r.below(1 << 30), "in": r.pick(PIPES), "out": r.pick(PIPES), "exts": exts, "uris": [],
            "reply_ms": r.pick([0, 5, None]), "pause": r.pick([0, 40, 90]), "plan": plan, "sure": sure, "progs": progs,
            "schemas": [{"launch": s["launch"], "id": s["id"], "name": s.get("file") or s["id"]} for s in schemas], "later": []}
    if n > 1 and "file" in schemas[0] and "file" in schemas[1] and r.chance(12):
        # Two schemas that call themselves the same.
        schemas[1]["id"] = schemas[0]["id"]
        files["w/s1.styx"] = schema_text(schemas[1])
        case["loose"] = True
    docs = {}
    for k, sc in enumerate(schemas):
        for j in range(1 + (r.below(3) == 0)):
            docs[f"w/doc{k}{'abc'[j]}.styx"] = k
    script, text, ver, nid = [], {}, {}, 100

    def content(p):
        return G.gen_doc(r, schemas[docs[p]], broken=0, faulty=5)

    for p in sorted(docs):
        if r.chance(80):
            text[p] = content(p)
            ver[p] = 1
            script.append(["open", p, text[p], 1])
    if r.chance(50):
        script.append(["wait", r.pick([10, 3000])])
    for _ in range(r.below(14)):
        k = r.weighted([("edit", 3), ("req", 4), ("wait", 3), ("open", 3), ("close", 1), ("noise", 5), ("near", 4), ("allow", 2), ("switch", 1), ("view", 2), ("rewrite", 1)])
        p = r.pick(sorted(docs))
        if k in ("edit", "open", "switch"):
            if k == "switch":
                docs[p] = r.below(n)
            text[p] = content(p)
            script.append(["change" if p in ver else "open", p, text[p], ver.get(p, 0) + 1])
            ver[p] = ver.get(p, 0) + 1
        elif k == "close" and p in ver:
            script.append(["close", p])
            del ver[p], text[p]
        elif k == "req" and p in ver:
            nid += 1
            m = r.pick(["hover", "completion", "inlayHint", "definition", "codeAction"])
            script.append(["req", nid, PREFIX + m, G.gen_params(r, m, G.uri_of(p), text[p])])
        elif k == "noise":
            # Not an order to allow anything.
            nid += 1
            q = r.pick(progs)
            args = [{"command": q}]
            script.append(r.pick([
                ["req", nid, "workspace/executeCommand", {"command": r.pick(["styx.allowExtension2", "allowExtension", "styx.allowextension", "", "styx.denyExtension", q, "styx.allowExtension "]), "arguments": args}],
                ["req", nid, "workspace/executeCommand", {"command": "styx.allowExtension", "arguments": r.pick([[], [None], [{"command": None}], [{"command": [q]}], [{"Command": q}], [{"program": q}],
                                                                                                                 [{}], [3], [{"command": {"command": q}}], [{"schema_id": schemas[0]["id"]}]])}],
                ["req", nid, "workspace/executeCommand", {"command": "styx.allowExtension"}],
                ["msg", {"jsonrpc": "2.0", "method": "workspace/didChangeConfiguration", "params": {"settings": {"styx": {"allowed_extensions": progs}, "allowed_extensions": progs}}}],
                ["req", nid, "styx/allowExtension", {"command": q}],
                ["msg", {"jsonrpc": "2.0", "method": "workspace/executeCommand", "params": {"command": "styx.allowextension", "arguments": args}}],
            ]))
        elif k == "near":
            nid += 1
            script.append(["allow", nid, r.pick([x for x in lookalikes(r.pick(progs)) if x not in progs])])
        elif k == "allow":
            nid += 1
            script.append(["allow", nid, r.pick(progs)])
        elif k == "rewrite":
            # The schema names another program from now on, or passes other arguments.
            q = r.below(n)
            if "file" not in schemas[q] or schemas[q]["launch"] is None:
                continue
            launch = [r.pick(progs + lookalikes(progs[q])[:4])] + [r.pick(["--lsp", "new", "-v"]) for _ in range(r.below(3))]
            if not launch[0].strip():
                continue
            script += [["write", f"w/s{q}.styx", schema_text(dict(schemas[q], launch=launch))]]
            case["later"].append(launch)
            case["loose"] = True
            for d in sorted(ver):
                if docs[d] == q:
                    text[d] = content(d)
                    ver[d] += 1
                    script.append(["change", d, text[d], ver[d]])
            if r.chance(60):
                script.append(["wait", r.pick([20, 1500, 31000])])
        elif k == "view" and p in ver:
            script.append(["wait", 2000])
            nid += 2
            script.append(["action", nid - 1, p, {"range": {"start": {"line": 0, "character": 0}, "end": {"line": 1, "character": 0}}}])
            if r.chance(60):
                script += [["wait", 8000], ["runaction", nid, nid - 1]]
        else:
            script.append(["wait", r.pick([1, 20, 1500, 35000])])
    # What the editor shows in the end, and what it offers.
    script.append(["wait", 60000])
    for p in sorted(ver):
        nid += 1
        script.append(["action", nid, p, {"range": {"start": {"line": 0, "character": 0}, "end": {"line": 1, "character": 0}}}])
        script.append(["wait", 12000])
        if r.chance(50):
            nid += 1
            script += [["runaction", nid, nid - 1], ["wait", 60000]]
    case["script"] = script
    return case


def schema_text(sc):
    launch = sc.get("launch")
    s = G.schema_text(dict(sc, launch=None))
    if launch is not None:
        s = s.replace("}\nschema {", "  lsp {launch (" + " ".join(esc(a) for a in launch) + ")}\n}\nschema {", 1)
    return s


def consent(h):
    """[(n, program)] allowed by the user's commands."""
    res = []
    for i, q in h.reqs.items():
        if q["method"] != "workspace/executeCommand":
            continue
        op = h.case["script"][q["op"]]
        if op[0] == "allow":
            res.append((q["n"], op[2]))
        elif op[0] in ("runaction", "allowoffered"):
            p = q["params"]
            a = (p.get("arguments") or [None])[0]
            if p.get("command") == "styx.allowExtension" and isinstance(a, dict):
                res.append((q["n"], a.get("command")))
    return res


def schema_of_text(case, text):
    for sc in case["schemas"]:
        first = text.replace("\r\n", "\n")
        if "@schema " + sc["name"] in first or f"id {sc['name']}," in first or f"id {sc['name']}\n" in first:
            return sc
    return None


def judge_e03(case, out=None):
    h = run_case(case)
    if out is not None:
        note(out, h)
    if h.dead:
        return h, died(h)
    res = {}
    allows = consent(h)
    sure = set(case["sure"])
    launches = {sc["launch"][0]: sc["launch"][1:] for sc in case["schemas"] if sc["launch"]}
    for e in h.spawns:
        p = e["program"]
        ok = p in sure or any(x == p and n < e["n"] for n, x in allows)
        if not ok:
            res.setdefault("started without consent", f"{p!r} {e['args']} was started at {e['t']} ms; allowed then: {sorted(sure | {x for n, x in allows if n < e['n'] and x})}\n"
                           f"configuration: {case['files'].get('config/styx/config.styx')!r}")
            continue
        if (p not in launches or launches[p] != e["args"]) and [p] + e["args"] not in case["later"]:
            res.setdefault("started with other arguments", f"{p!r} was started with {e['args']}, the schema says {launches.get(p)}")
            continue
        states = [d for n, d in h.states if n <= e["n"]]
        used = [p] + e["args"] in case["later"] or any(((schema_of_text(case, t[0]) or {}).get("launch") or [None])[0] == p for d in states for t in d.values())
        if not used:
            res.setdefault("started without a document", f"{p!r} was started though no document of its schema had been opened")
        if out is not None:
            out.count("reach:consented starts")
    faulty_disk = bool(case.get("plan"))
    # A schema can't be read under a disk fault: nothing is demanded then.
    if not faulty_disk and not case.get("loose"):
        oracle = ORACLE
        final = h.states[-1][1]
        names = sure | {x for n, x in allows}
        for uri, (text, ver, i) in sorted(final.items()):
            sc = schema_of_text(case, text)
            if not sc or not sc["launch"] or not oracle.ask(q="parse", text=text)["ok"]:
                continue
            p = sc["launch"][0]
            pubs = [x[2] for x in h.pubs if x[2]["uri"] == uri]
            ds = [d for d in (pubs[-1]["diagnostics"] if pubs else []) if d.get("source") == "styx-extension"]
            if p in names:
                if not any(e["program"] == p for e in h.spawns):
                    res.setdefault("allowed but not started", f"{p!r} is allowed and {uri} is open, but it was never started\nconfiguration: {case['files'].get('config/styx/config.styx')!r}, allowed in the session: {[x for n, x in allows]}")
                elif ds:
                    res.setdefault("still reported as held back", f"{p!r} runs, but {uri} still says {ds[0]['message']!r}")
                continue
            if len(ds) != 1 or p not in ds[0]["message"]:
                res.setdefault("held back silently", f"{p!r} is not allowed, but the diagnostics of {uri} are {json.dumps(pubs[-1]['diagnostics'] if pubs else None, ensure_ascii=False)[:500]}")
                continue
            if out is not None:
                out.count("reach:held back and reported")
            # The offer made for it.
            acts = [(q, h.resp.get(i)) for i, q in h.reqs.items() if q["method"] == PREFIX + "codeAction" and q["params"]["textDocument"]["uri"] == uri
                    and any(d == ds[0] for d in q["params"]["context"]["diagnostics"])]
            for q, a in acts[-1:]:
                cmds = [x["command"] for x in (a[0][2].get("result") or []) if isinstance(x.get("command"), dict)] if a else []
                mine = [c for c in cmds if c.get("command") == "styx.allowExtension"]
                if len(mine) != 1 or (mine[0].get("arguments") or [None])[0] is None or mine[0]["arguments"][0].get("command") != p:
                    res.setdefault("offer does not allow exactly it", f"for {p!r} the offered commands are {json.dumps(cmds, ensure_ascii=False)[:400]}")
                elif out is not None:
                    out.count("reach:offers")
    return h, sorted(res.items())


ORACLE = Oracle()


# ------------------------------------------------------------------------------------- E04
def e04_case(i, r):
    case = session_case("E04", i, r, faults=True, edits=25, requests=30, n=r.pick([4, 10, 25]))
    # Several documents of one schema, opened together.
    files = case["files"]
    case["exts"] = {p: [r.pick([healthy(r), healthy(r), faulty(r)]) for _ in range(1 + r.below(3))] for p in case["exts"]}
    body_ = [o for o in case["script"] if o[0] not in ("wait",) or o[1] < 20000]
    opens = [o for o in body_ if o[0] == "open"]
    extra = []
    for k in range(r.below(4)):
        o = r.pick(opens)
        if "sub/" in o[1] or ".config" in o[1] or o[1] in files:
            continue
        extra.append(["open", f"w/more{k}.styx", o[2], 1])
    cut = r.below(len(body_) + 1)
    for o in extra:
        body_.insert(r.below(min(3, len(body_)) + 1), o)
    if r.chance(50):
        body_ = body_[:max(cut, 1)]
    # Schemas whose launch command gets other arguments while the server runs.
    mine = [p for p in sorted(files) if isinstance(files[p], str) and "lsp {launch (" in files[p]]
    for _ in range(r.below(3) if mine else 0):
        p = r.pick(mine)
        old = files[p].split("lsp {launch (")[1].split(")")[0]
        new = files[p].replace("lsp {launch (" + old, "lsp {launch (" + " ".join([old.split(" ")[0]] + [r.pick(["new", "-v", "x"]) for _ in range(r.below(4))]))
        at = r.below(len(body_) + 1)
        body_[at:at] = [["write", p, new]] + ([] if r.chance(30) else [r.pick([["wait", 3000]] + extra + opens)])
    k = r.weighted([("orderly", 5), ("exit", 2), ("eof", 3), ("cut", 3), ("shutdown-eof", 2), ("shutdown-cut", 1)])
    end = []
    if r.chance(60):
        end.append(["wait", r.pick([0, 1, 40, 900, 4000, 9999, 15000])])
    if r.chance(15):
        end.append(["stall", True])
    if k in ("orderly", "shutdown-eof", "shutdown-cut"):
        end.append(["shutdown", 90000])
        if r.chance(70):
            end.append(["wait", r.pick([0, 1, 500, 8000])])
        elif r.chance(50):
            end.append(["yield", r.below(8)])
    if k in ("orderly", "exit"):
        end.append(["exit"])
        if r.chance(30):
            end.append(["eof"])
    elif k.endswith("eof"):
        end.append(["eof"])
    else:
        end.append(["cut"])
    case["script"] = body_ + end + [["wait", 60000]]
    case["end"] = k
    return case


END_MS = 30000
START_MS = 60000


def proc_life(h):
    """[{pid, program, start, end, how, t0, t1}]"""
    ps = {}
    for e in h.ev:
        if e["e"] == "spawn" and e["ok"]:
            ps[e["pid"]] = {"pid": e["pid"], "program": e["program"], "n0": e["n"], "t0": e["t"], "n1": None, "t1": None, "how": None, "calls": [], "args": e["args"]}
        elif e["e"] in ("killed", "exit"):
            ps[e["pid"]].update(n1=e["n"], t1=e["t"], how=e["e"])
        elif e["e"] == "ext":
            ps[e["pid"]]["calls"].append((e["n"], e["call"], e["p"]))
    return list(ps.values())


def judge_e04(case, out=None):
    h = run_case(case)
    if out is not None:
        note(out, h)
        out.count("fault:session end " + case.get("end", "?"))
    if h.dead:
        return h, died(h)
    res = {}
    procs = proc_life(h)
    ends = [h.sent[i][1] for i, op in enumerate(case["script"]) if op[0] in ("exit", "shutdown") and i in h.sent] + [e["t"] for e in h.ev if e["e"] in ("eof", "cut")]
    over = [e for e in h.ev if e["e"] == "send" and e["i"] is not None and e["i"] >= 0 and case["script"][e["i"]][0] in ("exit", "shutdown")] + [e for e in h.ev if e["e"] in ("eof", "cut")]
    end_n = min([e["n"] for e in over], default=1 << 60)
    se = h.of("server_end")
    count = {}
    for p in procs:
        k = count.get(p["program"], 0)
        count[p["program"]] = k + 1
    nth = {}
    for e in h.spawns:
        k = nth.get(e["program"], 0)
        nth[e["program"]] = k + 1
        if e["pid"]:
            for p in procs:
                if p["pid"] == e["pid"]:
                    bs = case["exts"].get(e["program"], [{}])
                    p["b"] = bs[min(k, len(bs) - 1)]
    BAD = ("spawn_err", "handshake", "init", "never", "die_after", "garbage_after", "stall_after", "hostile")
    for p in procs:
        for q in procs:
            if p is not q and p["program"] == q["program"] and p["n0"] < q["n0"] and (p["n1"] is None or p["n1"] > q["n0"]):
                res.setdefault("two live processes", f"{p['program']}: process {q['pid']} was started at {q['t0']} ms while {p['pid']}, started at {p['t0']} ms, was still running")
        b = p["b"]
        slow = b.get("handshake_ms", 0) + b.get("init_ms", 0)
        fine = not any(x in b for x in BAD) and slow < 8000
        if fine and p["how"] == "killed" and p["n1"] < end_n:
            res.setdefault("working process terminated", f"{p['program']} (process {p['pid']}) worked, but was terminated at {p['t1']} ms during the session")
        names = [c[1] for c in p["calls"]]
        if names and (names[0] != "initialize" or names.count("initialize") != 1):
            res.setdefault("not initialised exactly once first", f"{p['program']}: calls {names[:8]}")
        # Failed to start up: gone after a while, if the session lasted.
        if (b.get("handshake") in ("never", "garbage") or b.get("init") == "never" or slow > 2 * START_MS) and (p["t1"] if p["t1"] is not None else 1 << 60) - p["t0"] > START_MS:
            last = h.ev[-1]["t"]
            if last - p["t0"] > START_MS:
                res.setdefault("failed start left running", f"{p['program']} (process {p['pid']}, {b}) did not start up, and was still running {START_MS} ms later")
        if out is not None:
            out.count("reach:processes")
            out.count("reach:processes " + ("killed" if p["how"] == "killed" else "exited by themselves" if p["how"] else "at large"))
            if fine and len(set(c[2].get("uri") for c in p["calls"] if c[2])) > 1:
                out.count("reach:processes used by several documents")
    for prog, k in count.items():
        if k > 1 and all(not any(x in b for x in BAD) and b.get("handshake_ms", 0) + b.get("init_ms", 0) < 8000 for b in case["exts"].get(prog, [{}])):
            res.setdefault("working process not reused", f"{prog} was started {k} times, though every process worked")
    if ends:
        if not se:
            res.setdefault("server did not end", f"60 simulated seconds after {case.get('end')}") if case.get("end") else None
        elif se[0]["t"] - max(ends) > END_MS:
            res.setdefault("server ended late", f"{se[0]['t'] - max(ends)} ms after {case.get('end')}")
        if se and h.final:
            for p in h.final["procs"]:
                if not p["exited"] and (p["stubborn"] or not p["stdin_closed"]):
                    res.setdefault("process outlives the session", f"after {case.get('end')}: {p}")
        # Those that were terminated only with the server: in bounded time.
        for p in procs:
            if p["t1"] is not None and p["t1"] - max(ends) > END_MS:
                res.setdefault("process outlives the session", f"{p['program']} ended {p['t1'] - max(ends)} ms after {case.get('end')}")
    return h, sorted(res.items())


def make(prop):
    if prop == "E03":
        return make_session("E03", judge_e03, e03_case, {"quick": 9000, "thorough": 150000},
                            "seeded consent situations (allow lists with look-alike names, missing, damaged and unreadable configurations, commands that are no consent, offers taken up); every process start compared with a model of the user's consent; distinct = distinct order of observable events")
    return make_session("E04", judge_e04, e04_case, {"quick": 9000, "thorough": 150000},
                        "seeded sessions with healthy and faulty extension processes, ended in every way at seeded moments; the process table is checked at every start and after the end; distinct = distinct order of observable events")
