"""E06: any session an editor can have."""
from lspprops import *

DEEP = ["{", "(", "a {", "a (", "@t{", "@t(", "(@x(", "a@b", "x>", "@a", "a.", "{a{", '"', "<<A\n", "r#", "///\n", "//", "@object{a ", "@optional(", "\\u{"]


def hostile_doc(r, schemas):
    k = r.below(20)
    if k == 0:
        return r.pick(DEEP) * r.pick([100, 127, 128, 129, 130, 1000, 20000])
    if k == 1:
        n = r.pick([60, 126, 127, 128, 129, 500])
        a, b = r.pick([("{a ", "}"), ("(", ")"), ("a {", "}"), ("@t{a ", "}"), ("@t(", ")")])
        return "k " + a * n + r.pick(["1", "x", ""]) + b * n
    if k == 2:
        return ".".join(["a"] * r.pick([2, 127, 128, 129, 4000])) + " 1\n"
    if k == 3:
        return "".join(chr(r.pick([r.below(0x80), r.below(0x800), r.below(0xD800), 0x10000 + r.below(0x100000)])) for _ in range(r.below(200)))
    if k == 4:
        return "".join(r.pick(list('{}()"@.,>/\\#<r \n\r\t=-0aé🎉\0\ufeff\u2028\u0085')) for _ in range(r.below(120)))
    if k == 5:
        return r.pick(["\ufeff", "\0", "\r", "\r\n", "\n" * 3000, " " * 5000, "\u2028", "\t", "a\0b 1", "a 1\rb 2\r", "\r\r\n\n"])
    if k == 6:
        return "\n".join(f"k{j} {j}" for j in range(r.pick([300, 1500])))
    if k == 7:
        return "k " + r.pick(["x", "é", "🎉", '"a"']) * r.pick([1000, 20000])
    if k == 8:
        return r.pick(["@schema", "@schema @", "@schema {", "@schema {}", "@schema {id x}", "@schema {cli }", "@schema {id x, cli ..}", "@schema ../../../../etc/passwd",
                       "@schema /dev/zero", "@schema /dev/ptmx", "@schema pipe0", "@schema {id x, cli pipe0}", "@schema .", "@schema " + "x" * 5000, "@schema http://[", "@schema \"\"", "@schema (a b)", "@schema {id a/../b, cli tool0}", "@schema s0.styx @schema s0.styx",
                       "@schema \"\\0\"", "@schema {id sch0, cli \"tool0 x\"}", "@schema @schema", "@schema s0.styx\n@schema s1.styx"]) + r.pick(["", "\n", "\na 1\n"])
    if k == 9:
        return "@schema s0.styx\n" + "".join(f"{f} {r.pick(G.STRINGS + ['@', '{', '(', '@x{a 1}', '<<E\\nx\\nE'])}\n" for f in r.sample(G.FIELDS, r.below(8)))
    if k == 10:
        return '"' + "".join(r.pick(["\\u{", "\\u", "\\", "}", "1F600", "é", "🎉", "\\x", "\\n", "g", "D800", "110000", "\\u{D800}"]) for _ in range(r.below(14))) + r.pick(['"', "", '" 1'])
    if k == 11:
        return r.pick(["<<", "<<A", "<<A\n", "<<A\nA", "<<A,rust\nfoo\nA", "x <<A\n  a\n A\n", "x <<A\n\tb\n  A", "x <<É\né\nÉ\n", "x <<A\r\na\r\nA\r\n", "r#", "r#\"", "r##\"\"#", "x r###\"🎉\"###"])
    if k == 12:
        # schema-shaped
        return r.pick(["meta {id x}\nschema {@ @Loop\n Loop @Loop}\n", "meta {id x}\nschema {@ @object{a @optional(@optional(@T))}\nT @seq(@T)}\n", "schema {}", "meta {}", "meta 1\nschema 2",
                       "meta {id x}\nschema {@ @enum{}}", "meta {id x, lsp {launch ()}}\nschema {@ @any}\n", "meta {id x}\nschema {@ @object{@ @string, @string @int}}\n"])
    sc = r.pick(schemas + [None])
    t = G.gen_doc(r, sc, broken=60, faulty=60)
    for _ in range(r.below(4)):
        t = G.mutate(r, t, sc, schemas)
    return t


ODD_SCHEMAS = ["meta {id odd}\nschema {\n @ @object{a @Loop}\n Loop @Loop\n}\n", "meta {id odd}\nschema {\n @ @A\n A @object{x @optional(@B)}\n B @object{y @seq(@A), z @map(@string @B)}\n}\n",
               "meta {id odd}\nschema {@ @union(@string @object{a @int})}\n", "not a schema {", "", "meta {id odd}\nschema {@ @object{a @" + "optional(@" * 120 + "string" + ")" * 120 + "}}\n",
               "meta {id odd}\nschema {@ @object{a @Missing}}\n", "meta {id odd}\nschema {\n @ @flatten(@A)\n A @flatten(@A)\n}\n", "meta {id \"\"}\nschema {@ @object{\"\" @string}}\n",
               "meta {id odd, lsp {launch (prog0)}}\nschema {@ @object{a @string}}\n", "meta {id odd}\nschema {@ @object{" + " ".join(f"f{j} @string" for j in range(400)) + "}}\n"]

BAD_URIS = ["untitled:Untitled-1", "file:///", "file:///nowhere/x.styx", "http://example.com/a.styx", "styx-embedded:///x", "file://host/x", "file:///%00", "file:///a%FFb.styx", "data:,x", "urn:x",
            "file:///" + "d/" * 300, "styx-builtin://schema", "file:relative"]
NOT_URIS = ["", "not a uri", "://", "file", 5, None, [], {}]


def uri(r, case):
    k = r.below(20)
    if k == 0:
        return r.pick(BAD_URIS)
    if k == 1:
        return r.pick(NOT_URIS)
    return G.uri_of(r.pick(case["docs"]))


def odd_pos(r, text, deep=False):
    k = r.below(14)
    if deep and k == 1:
        k = 2
    if k == 0:
        return {"line": r.pick([0, 1, 4294967295, 2147483648, 999999]), "character": r.pick([0, 4294967295, 2147483647, 65536])}
    if k == 1:
        return r.pick([{"line": -1, "character": 0}, {"line": 0}, {"line": "0", "character": 0}, {"line": 4294967296, "character": 0}, {"line": 1.5, "character": 0}, None, [], {"line": 0, "character": 1e30}])
    return G.pos_near(r, text)


def odd_value(r, depth=0):
    return r.pick([None, True, 0, -1, 1.5, "", "x", "🎉", [], {}, [None], {"a": 1}, 1 << 53, "\u0000", {"textDocument": None}, [[[]]], {"command": None}, "A" * 3000])


METHODS_ALL = [PREFIX + m for m, _ in G.METHODS] + ["textDocument/rangeFormatting", "textDocument/rename", "textDocument/prepareRename", "textDocument/semanticTokens/range", "textDocument/foldingRange",
               "textDocument/selectionRange", "completionItem/resolve", "codeAction/resolve", "workspace/symbol", "workspace/executeCommand", "textDocument/documentHighlight", "textDocument/signatureHelp",
               "nope", "", "$/nope", "styx/x", "textDocument/didOpen", "initialized", "initialize", "documentLink/resolve", "inlayHint/resolve", "textDocument/diagnostic", "workspace/diagnostic", "textDocument/codeLens"]


def wild_params(r, case, m, u, text, deep=False):
    """deep: parameters the protocol allows, whatever the server makes of them"""
    base = m[len(PREFIX):] if m.startswith(PREFIX) else m
    if any(base == x for x, _ in G.METHODS):
        p = G.gen_params(r, base, u, text)
        if "position" in p:
            p["position"] = odd_pos(r, text, deep)
        if "range" in p and r.chance(60):
            p["range"] = {"start": odd_pos(r, text, deep), "end": odd_pos(r, text, deep)}
        if base in ("formatting", "onTypeFormatting") and not deep and r.chance(40):
            p["options"] = r.pick([{"tabSize": 0, "insertSpaces": True}, {"tabSize": 4294967295, "insertSpaces": True}, {"tabSize": 3, "insertSpaces": False}, {}, None, {"tabSize": -1, "insertSpaces": True}])
        if base == "onTypeFormatting" and r.chance(30):
            p["ch"] = r.pick(["", "\r", "x", "\n\n", "🎉"] + [None] * (not deep))
        if base == "codeAction" and r.chance(70):
            p["context"] = {"diagnostics": [odd_diag(r, text, deep) for _ in range(r.below(4))]}
    elif base == "workspace/executeCommand":
        p = {"command": r.pick(["styx.allowExtension", "x", ""]), "arguments": r.pick([[], [None], [{"command": r.pick(["prog0", "", "\0", "a\nb", "🎉", '"', "x" * 2000, "\\", "\ud800"])}], [1, 2], [{"command": 3}], [{}]])}
    elif base in ("semanticTokens/range", "rangeFormatting", "foldingRange", "rename", "prepareRename", "selectionRange", "documentHighlight", "signatureHelp"):
        p = {"textDocument": {"uri": u}, "position": odd_pos(r, text), "range": {"start": odd_pos(r, text), "end": odd_pos(r, text)}, "newName": "x", "options": {"tabSize": 2, "insertSpaces": True}}
    elif base == "initialize":
        p = INIT
    else:
        p = r.pick([{}, None, {"query": ""}, {"textDocument": {"uri": u}}])
    k = r.below(25)
    if deep:
        pass
    elif k == 0:
        p = odd_value(r)
    elif k == 1 and isinstance(p, dict) and p:
        p = dict(p)
        del p[r.pick(sorted(p))]
    elif k == 2 and isinstance(p, dict) and p:
        p = dict(p)
        p[r.pick(sorted(p))] = odd_value(r)
    elif k == 3 and isinstance(p, dict):
        p = dict(p, extra={"a": [1, 2, {"b": None}]})
    return p


def odd_diag(r, text, deep=False):
    d = {"range": {"start": odd_pos(r, text, deep), "end": odd_pos(r, text, deep)}, "message": r.pick(["", "m", "unknown field 'x'"]),
         "source": r.pick(["styx-schema", "styx-hints", "styx-extension", "styx", "other", None])}
    d["data"] = r.pick([None, {}, {"type": "rename_field", "from": r.pick(["name", "nme", "", "🎉"]), "to": r.pick(["name", "", "a b", "🎉", "\n"])}, {"type": "add_schema", "declaration": r.pick(["@schema s0.styx", "", "{"]), "tool": "t"},
                        {"type": "allow_extension", "schema_id": "sch0", "command": r.pick(["prog0", "", None])}, {"type": 3}, [1], "x", {"type": "rename_field"}])
    if r.chance(30):
        d["data"] = r.pick([odd_value(r), [], {}, [[], {"": []}], -1.5, 1 << 60])
    if r.chance(20):
        d["code"] = r.pick([1, -1, "", "🎉"] + [4294967295, 1.5] * (not deep))
    return d


def message_text(v):
    return json.dumps(v)


def e06_case(i, r):
    deep = r.chance(30)
    w = G.gen_workspace(r, ext=90 if deep else 60)
    files = dict(w["files"])
    schemas = w["schemas"]
    schema_of = {d: s for d, s in w["docs"]}

    def doc_text(d):
        if not deep or not isinstance(schema_of[d], int) or r.chance(20):
            return hostile_doc(r, schemas)
        return G.gen_doc(r, schemas[schema_of[d]])

    for j, sc in enumerate(schemas):
        if "file" in sc and r.chance(3 if deep else 15):
            files[f"w/{sc['file']}"] = r.pick(ODD_SCHEMAS)
    progs = [f"prog{k}" for k in range(len(schemas))]
    exts = {p: [r.pick([healthy(r), {}, healthy(r) if deep else faulty(r)]) for _ in range(2)] for p in progs}
    if r.chance(95 if deep else 70):
        files["config/styx/config.styx"] = G.config_text(progs)
    docs = [d[0] for d in w["docs"]]
    files["w/pipe0"] = {"fifo": 1}
    case = {"dir": f"{SCRATCH}/E06-{i}", "files": files, "seed": 1 + r.below(1 << 30), "in": r.pick(PIPES), "out": r.pick(PIPES), "exts": exts, "docs": docs,
            "uris": [G.uri_of(d) for d in docs], "reply_ms": r.pick([0, 5, None, None]), "pause": r.pick([0, 10, 60]), "wild": True}
    script, text, nid, ids = [], {}, 1000, []

    def new_id():
        nonlocal nid
        nid += 1
        x = r.below(12)
        return nid if x < 9 else f"req-{nid}" if x == 9 else f"é🎉{nid}" if x == 10 else -nid

    if r.chance(12) and not deep:
        # Before or instead of the greeting
        case["init"] = False
        for _ in range(r.below(4)):
            script.append(["req", new_id(), r.pick(METHODS_ALL), {}])
        if r.chance(70):
            script.append(["req", new_id(), "initialize", INIT])
            if r.chance(60):
                script.append(["wait", 100])
    for _ in range(r.pick([4, 10, 20, 40])):
        k = r.weighted([("open", 7), ("change", 8), ("close", 2), ("req", 30), ("cancel", 4), ("wait", 5), ("yield", 3), ("notify", 4), ("malformed", 0 if deep else 6), ("frame", 3), ("stall", 1), ("response", 2),
                        ("action", 3), ("shutdown", 1), ("dup", 1)])
        d = r.pick(docs)
        u = G.uri_of(d)
        t = text.get(d, "")
        if k == "open" or (k == "change" and not text):
            text[d] = doc_text(d)
            script.append(["open", d, text[d], r.pick([1, 1, 0, -5, 2147483647])])
        elif k == "change":
            text[d] = doc_text(d) if r.chance(40) else G.mutate(r, t[:3000], None, schemas)
            script.append(["change", d, text[d], r.below(50)])
        elif k == "close":
            script.append(["close", d])
            text.pop(d, None)
        elif k == "req":
            m = PREFIX + r.weighted(G.METHODS) if deep else r.pick(METHODS_ALL)
            if m == "initialize" and r.chance(70):
                m = PREFIX + "hover"
            x = new_id()
            ids.append(x)
            script.append(["req", x, m, wild_params(r, case, m, u if deep and r.chance(90) else uri(r, case), t, deep)])
        elif k == "cancel":
            script.append(["cancel", r.pick(ids + [99999, "x"])])
        elif k == "wait":
            script.append(["wait", r.pick([1, 5, 100, 3000, 20000])])
        elif k == "yield":
            script.append(["yield", 1 + r.below(9)])
        elif k == "notify":
            script.append(["msg", r.pick([
                {"jsonrpc": "2.0", "method": "textDocument/didSave", "params": {"textDocument": {"uri": u}}},
                {"jsonrpc": "2.0", "method": "textDocument/didChange", "params": {"textDocument": {"uri": u, "version": 3}, "contentChanges": []}},
                {"jsonrpc": "2.0", "method": "textDocument/didOpen", "params": odd_value(r)},
                {"jsonrpc": "2.0", "method": "textDocument/didChange", "params": {"textDocument": {"uri": r.pick(NOT_URIS), "version": r.pick([1, None])}, "contentChanges": [{"text": "x"}]}},
                {"jsonrpc": "2.0", "method": "textDocument/didOpen", "params": {"textDocument": {"uri": r.pick(BAD_URIS), "languageId": "styx", "version": 1, "text": hostile_doc(r, schemas)}}},
                {"jsonrpc": "2.0", "method": "textDocument/didClose", "params": {"textDocument": {"uri": r.pick(BAD_URIS)}}},
                {"jsonrpc": "2.0", "method": "$/setTrace", "params": {"value": "off"}}, {"jsonrpc": "2.0", "method": "$/unknown"}, {"jsonrpc": "2.0", "method": "unknown/notification", "params": [1]},
                {"jsonrpc": "2.0", "method": "initialized", "params": {}}, {"jsonrpc": "2.0", "method": "workspace/didChangeConfiguration", "params": {"settings": None}},
                {"jsonrpc": "2.0", "method": "workspace/didChangeWatchedFiles", "params": {"changes": [{"uri": u, "type": 2}]}}, {"jsonrpc": "2.0", "method": "$/cancelRequest", "params": odd_value(r)},
                {"jsonrpc": "2.0", "method": PREFIX + "hover", "params": {"textDocument": {"uri": u}, "position": {"line": 0, "character": 0}}}, {"jsonrpc": "2.0", "method": "workspace/didChangeWorkspaceFolders", "params": {}}])])
        elif k == "malformed":
            x = new_id()
            script.append(["text", r.pick(["", "{", "null", "[]", "[{\"jsonrpc\":\"2.0\",\"id\":%d,\"method\":\"x\"}]" % (900000 + len(script)), "5", "\"x\"", "{}", "{\"jsonrpc\":\"2.0\"}",
                                           "{\"jsonrpc\":\"1.0\",\"id\":%s,\"method\":\"shutdown\"}" % json.dumps(x), "{\"jsonrpc\":\"2.0\",\"id\":%s,\"method\":5}" % json.dumps(x), "{\"jsonrpc\":\"2.0\",\"id\":%s}" % json.dumps(x),
                                           "{\"jsonrpc\":\"2.0\",\"id\":1.5,\"method\":\"x\"}", "{\"jsonrpc\":\"2.0\",\"id\":null,\"method\":\"x\"}", "{\"jsonrpc\":\"2.0\",\"id\":{},\"method\":\"x\"}", "nul", "{\"a\":" * 500,
                                           "{\"method\":\"exit\"}", "{\"jsonrpc\":\"2.0\",\"method\":null}", "\ufeff{}", "[" * 3000, "{\"jsonrpc\":\"2.0\",\"id\":99999999999999999999,\"method\":\"shutdown\"}",
                                           "{\"jsonrpc\":\"2.0\",\"method\":\"textDocument/didOpen\",\"params\":{\"textDocument\":{\"uri\":\"file:///q.styx\",\"languageId\":\"styx\",\"version\":1,\"text\":\"\\ud800\"}}}"])])
        elif k == "frame":
            # The same message, framed in the other ways the protocol allows.
            x = new_id()
            b = json.dumps({"jsonrpc": "2.0", "id": x, "method": PREFIX + "documentSymbol", "params": {"textDocument": {"uri": u}}}, ensure_ascii=r.chance(50)).encode()
            head = r.pick(["Content-Length: %d\r\nContent-Type: application/vscode-jsonrpc; charset=utf-8\r\n\r\n", "Content-Type: application/vscode-jsonrpc; charset=utf8\r\nContent-Length: %d\r\n\r\n", "Content-Length: %d\r\n\r\n"])
            script.append(["framed", x, head, b.decode()])
        elif k == "stall":
            script += [["stall", True], ["wait", r.pick([5, 3000, 20000])], ["stall", False]]
        elif k == "response":
            script.append(["msg", r.pick([{"jsonrpc": "2.0", "id": r.pick([0, 1, 99, "x", None]), "result": None}, {"jsonrpc": "2.0", "id": 0, "error": {"code": -1, "message": "no"}}, {"jsonrpc": "2.0", "id": 1, "result": odd_value(r)},
                                          {"jsonrpc": "2.0", "id": 0, "result": 1, "error": {"code": 1, "message": ""}}, {"jsonrpc": "2.0", "result": None}, {"jsonrpc": "2.0", "id": 0, "error": 5}])])
        elif k == "action":
            x = new_id()
            script.append(["action", x, d, {"range": {"start": {"line": 0, "character": 0}, "end": {"line": 9, "character": 0}}}])
        elif k == "shutdown" and r.chance(30):
            script.append(["shutdown", new_id()])
        elif k == "dup":
            script.append(["msg", {"jsonrpc": "2.0", "id": new_id(), "method": "shutdown", "params": odd_value(r)}] if r.chance(20) else ["wait", 1])
    calm = r.chance(65)
    if calm:
        script.append(["wait", 90000])
        script.append(["req", "last", PREFIX + "documentSymbol", {"textDocument": {"uri": G.uri_of(docs[0])}}])
        script.append(["wait", 30000])
    k = r.pick(["orderly", "orderly", "exit", "eof", "cut", "partial"])
    if not calm and r.chance(25):
        script.append(["stall", True])
    if k == "orderly":
        script += [["shutdown", "bye"], r.pick([["wait", 20], ["yield", 3], ["wait", 0]]), ["exit"]]
    elif k == "exit":
        script.append(["exit"])
    elif k == "partial":
        script += [["raw", r.pick([b"Content-Length: 10\r\n\r\n{", b"Content-Le", b"Content-Length: 5000000\r\n\r\n{}", b"garbage\r\n\r\n", b"\r\n\r\n\r\n", b"\xff\xfe\x00", b"Content-Length: -1\r\n\r\n{}",
                                   b"Content-Length: x\r\n\r\n"]).hex()], ["wait", 5], [r.pick(["eof", "cut"])]]
    else:
        script.append([k])
    case["script"] = script + [["wait", 60000], ["drain", 20000]]
    case["end"] = k
    case["calm"] = calm
    return case


def valid_id(x):
    return isinstance(x, str) or (isinstance(x, int) and not isinstance(x, bool) and -(1 << 63) <= x < 1 << 63)


def lone_surrogate(v):
    """Not a JSON text of Unicode characters: the server cannot read the message at all."""
    if isinstance(v, str):
        return any(0xD800 <= ord(c) < 0xE000 for c in v)
    if isinstance(v, dict):
        return any(lone_surrogate(k) or lone_surrogate(x) for k, x in v.items())
    return isinstance(v, list) and any(map(lone_surrogate, v))


def judge_e06(case, out=None):
    h = run_case(case)
    if out is not None:
        note(out, h)
        out.count("fault:session end " + case["end"])
    res = {}
    for c, t in died(h):
        res.setdefault(c if c != "panic" else "panic at " + h.of("panic")[0]["at"].split("/repo/")[-1].split(":")[0], t)
    if h.dead:
        return h, sorted(res.items())
    script = case["script"]
    sent, last_n = {}, None
    over = [e for e in h.ev if e["e"] in ("eof", "cut") or e["e"] == "send" and e["i"] is not None and e["i"] >= 0 and script[e["i"]][0] == "exit"]
    end_n, end_t = (over[0]["n"], over[0]["t"]) if over else (1 << 60, None)
    for e in h.of("bad_frame") + h.of("partial"):
        # The last message may be cut off when the editor is gone, or has exited and is too slow to take it.
        late = any(x["t"] - end_t >= 4900 for x in h.of("server_end")) if end_t is not None else False
        if not (e["e"] == "partial" and (case["end"] in ("cut", "partial") or late)):
            res.setdefault("malformed output", json.dumps(e))
    nulls = 0
    for i, (n, t) in sorted(h.sent.items()):
        op = script[i]
        m = None
        if op[0] != "text" and lone_surrogate(op[1:]):
            nulls += 1
        elif op[0] in ("req", "shutdown", "action", "allow", "runaction"):
            sent[json.dumps(op[1])] = (n, t, op[2] if op[0] == "req" else op[0])
        elif op[0] == "framed":
            sent[json.dumps(op[1])] = (n, t, "framed")
            if out is not None:
                out.count("reach:other framings")
        elif op[0] in ("msg", "text"):
            m = op[1]
            if op[0] == "text":
                if out is not None:
                    out.count("fault:malformed message")
                try:
                    m = json.loads(op[1])
                except (ValueError, RecursionError):
                    m = None
                    nulls += 1
                    continue
                if lone_surrogate(m):
                    nulls += 1
                    continue
            if isinstance(m, dict) and "id" in m and valid_id(m["id"]):
                if "result" in m or "error" in m:
                    continue
                sent[json.dumps(m["id"])] = (n, t, "malformed" if op[0] == "text" else m.get("method"))
            elif not isinstance(m, dict) or "id" in m:
                nulls += 1
            if isinstance(m, list):
                nulls += len(m)
    if case.get("init", True):
        sent["0"] = (0, 0, "initialize")
    ended = h.of("server_end")
    # A stalled or vanished editor does not get its answers.
    quiet_from = end_n
    got = {}
    for e in h.ev:
        if e["e"] == "recv" and "id" in e["m"] and "method" not in e["m"]:
            k = json.dumps(e["m"]["id"])
            got[k] = got.get(k, 0) + 1
            if ("result" in e["m"]) == ("error" in e["m"]):
                res.setdefault("response with neither or both of result and error", json.dumps(e["m"])[:300])
            if k != "null" and k not in sent:
                res.setdefault("answer to nothing", f"a response with id {k}: {json.dumps(e['m'])[:300]}")
    for k, (n, t, m) in sorted(sent.items()):
        c = got.get(k, 0)
        if c > 1:
            res.setdefault(f"several responses: {m}", f"{c} responses to request {k} ({m})")
        elif c == 0:
            if m == "malformed":
                continue
            owed = end_t is None or (case["calm"] and n < end_n and end_t - t >= 60000)
            if not owed and n < end_n and case["end"] in ("orderly", "exit") and case["calm"]:
                owed = end_t - t >= 1000
            if owed:
                res.setdefault(f"no response: {m}", f"request {k} ({m}) sent at {t} ms was never answered; the session ended at {end_t} ms")
        if out is not None and c:
            out.count("reach:answered " + ("with an error" if any("error" in x[2] for x in h.resp.get(json.loads(k), [])) else "normally"))
    if got.get("null", 0) > nulls:
        res.setdefault("answer to nothing", f"{got['null']} responses without id to {nulls} malformed messages")
    if ended:
        e = ended[0]
        if e["panic"] or not e["ok"]:
            res.setdefault("server ended badly", json.dumps(e))
        if e["n"] < end_n:
            res.setdefault("server ended early", f"at {e['t']} ms, before the editor exited or disconnected ({case['end']} at {end_t})")
        elif end_t is not None and e["t"] - end_t > END:
            res.setdefault("server ended late", f"{e['t'] - end_t} ms after {case['end']}")
    elif end_t is not None:
        res.setdefault("server did not end", f"after {case['end']}: 60 simulated seconds later it is still running")
    if case["calm"] and case.get("init", True) and '"bye"' in sent and '"bye"' in got and not any(op[0] == "shutdown" and op[1] != "bye" or op[0] == "msg" and isinstance(op[1], dict) and op[1].get("method") == "shutdown" for op in script):
        n, _, m = h.resp["bye"][0]
        # An exit that does not wait for the answer may overtake the shutdown.
        if "error" in m and n < end_n:
            res.setdefault("shutdown refused", json.dumps(m)[:300])
        m = h.resp.get("last", [(0, 0, {"result": 1})])[0][2]
        if "error" in m:
            res.setdefault("server does not serve any more", json.dumps(m)[:300])
    return h, sorted(res.items())


END = 20000


def make():
    return make_session("E06", judge_e06, e06_case, {"quick": 4500, "thorough": 200000},
                        "seeded sessions of valid, odd, out-of-range and malformed messages over hostile documents and schemas, split and delayed, ended in every way at seeded moments; responses are counted per request, the framing is checked byte by byte; distinct = distinct order of observable events")
