"""E08: what extensions are told about documents."""
from lspprops import *
import lspedit
from lspedit import parse, object_at, schema_value

CALLS = {"hover": "hover", "completions": "completion", "definition": "definition", "inlay_hints": "inlayHint", "code_actions": "codeAction"}
STALE_MS = 5000


# ------------------------------------------------------------------------- the documents' truth
def path_at(o, byte):
    """The keys and indices to what the cursor is on, as strings; None when it is on nothing."""
    for e in o.get("obj", []):
        ks, vs = e["ks"], e["v"].get("s")
        if ks and ks[0] <= byte < ks[1] and e["key"] is not None:
            return [e["key"]]
        if vs and vs[0] <= byte < vs[1]:
            sub = path_at(e["v"], byte)
            own = [e["key"]] if e["key"] is not None else []
            if sub is not None:
                return own + sub
            if own:
                return own
    for i, x in enumerate(o.get("seq", [])):
        s = x.get("s")
        if s and s[0] <= byte < s[1]:
            return [str(i)] + (path_at(x, byte) or [])
    return None


def tagged_at(o, byte, cur=None):
    """The innermost tagged value around an offset."""
    s = o.get("s")
    if s and not s[0] <= byte <= s[1]:
        return None
    if o.get("tag") is not None:
        cur = o
    for x in [e["v"] for e in o.get("obj", [])] + o.get("seq", []):
        r = tagged_at(x, byte, cur)
        if r is not None:
            return r
    return cur


def scrub(o):
    """An outline without what depends on the text it was made with."""
    return json.dumps(o, sort_keys=True)


def o2p(text, off):
    b = text.encode()
    if off > len(b):
        return None
    try:
        i = len(b[:off].decode())
    except UnicodeDecodeError:
        return None
    p = pos_of(text, i)
    return [p["line"], p["character"]]


def p2o(text, line, character):
    ls = lines_of(text)
    if line >= len(ls):
        return None
    s, start = ls[line]
    n = 0
    for k, c in enumerate(s):
        n += 2 if ord(c) > 0xFFFF else 1
        if n > character:
            return byte_index(text, start + k)
    return byte_index(text, start + len(s))


# ------------------------------------------------------------------------------------ the case
def diag_of(r):
    d = {"message": r.pick(["m", "größe 🎉", "", "two\nlines"])}
    if r.chance(70):
        d["severity"] = r.pick([1, 2, 3, 4])
    if r.chance(50):
        d["source"] = r.pick(["sim-ext", "styx-schema", "other"])
    if r.chance(50):
        d["code"] = r.pick(["E1", "", 7, -3, "größe"])
    if r.chance(30):
        d["data"] = r.pick([None, 1, "x", True, [1, "a"], [], {}, -1.5, "", [[], {"": []}], {"type": "x", "n": {"y": [None, 2.5]}}])
    return d


def e08_case(i, r):
    case = session_case("E08", i, r, edits=25, requests=45, allow=100)
    for p in case["exts"]:
        b = case["exts"][p][0]
        b["outlines"] = True
        if r.chance(60):
            b["others"] = [u.replace("$ROOT", case["dir"]) for u in case["uris"]] + [f"file://{case['dir']}/w/elsewhere.styx", "not a uri"]
        b["callbacks"] = r.pick([50, 100, 100])
        b["idle"] = r.pick([0, 50, 100])
        b.setdefault("delay", r.pick([[0, 0], [0, 5], [20, 900]]))
    body = case["script"]
    # More of what extensions are asked, at positions inside the text.
    texts, nid, out = {}, 50000, []
    for op in body:
        out.append(op)
        if op[0] in ("open", "change"):
            texts[op[1]] = op[2]
        elif op[0] == "close":
            texts.pop(op[1], None)
        if texts and r.chance(35):
            p = r.pick(sorted(texts))
            t = texts[p]
            m = r.pick(["hover", "completion", "definition", "inlayHint", "codeAction", "hover", "completion"])
            a = lspedit.interesting(r, t)
            q = {"textDocument": {"uri": G.uri_of(p)}}
            if m in ("inlayHint", "codeAction"):
                b = max(a, lspedit.interesting(r, t))
                q["range"] = {"start": pos_of(t, a), "end": pos_of(t, b)}
                if m == "codeAction":
                    q["context"] = {"diagnostics": [dict(diag_of(r), range={"start": pos_of(t, min(x, y)), "end": pos_of(t, max(x, y))})
                                                    for x, y in [(lspedit.interesting(r, t), lspedit.interesting(r, t)) for _ in range(r.below(3))]]}
            else:
                q["position"] = pos_of(t, a)
            nid += 1
            out.append(["req", nid, PREFIX + m, q])
    case["script"] = out + [["wait", 70000]]
    return case


# ------------------------------------------------------------------------------------ the judge
class Told:
    def __init__(self, h, out):
        self.h, self.out, self.case = h, out, h.case
        self.ns = [n for n, _ in h.states]
        self.res = {}
        at = {e["n"]: e["t"] for e in h.ev if "n" in e}
        self.times = [at.get(n, 0) for n in self.ns]

    def bad(self, cls, what):
        self.res.setdefault(cls, what)

    def count(self, what, k=1):
        if self.out is not None:
            self.out.count("reach:" + what, k)

    def upto(self, n):
        """Index of the last state sent before event n."""
        import bisect
        return bisect.bisect_right(self.ns, n) - 1

    def text(self, s, uri):
        d = self.h.states[s][1].get(uri)
        return d[0] if d else None

    def right(self, q, a, s):
        """Whether a is the answer to a question about state s."""
        t = self.text(s, q["uri"])
        k = q["k"]
        if t is None:
            return a is None
        if k == "source":
            return a == t
        if k == "o2p":
            return a == o2p(t, q["offset"])
        if k == "p2o":
            return a == p2o(t, q["line"], q["character"])
        if k == "document":
            p = parse(t)
            return a == (p.get("tree") if p.get("ok") else None)
        if k == "subtree":
            return a == lspedit.oracle().ask(q="subtree", text=t, path=q["path"])
        if k == "schema":
            p = parse(t)
            if not p.get("ok"):
                return a is None
            want = self.schema(p["outline"], q["uri"], s)
            if want is None:
                return True
            if a is None and ("schema {\n  @ " not in want or not parse(want).get("ok")):
                return True
            return a is not None and a["source"] == want and a["uri"].startswith("file://" + self.h.root)
        return False

    def schema(self, o, uri, s):
        """The text of a document's schema, when it is surely one of the workspace's."""
        e = schema_value(o)
        v = (e or {}).get("v", {})
        name = v.get("text")
        if name is None or v.get("tag") is not None or os.path.isabs(name) or os.path.normpath(name) != name:
            return None
        from urllib.parse import unquote
        p = os.path.join(os.path.dirname(unquote(uri[len("file://" + self.h.root) + 1:])), name)
        f = self.case["files"].get(os.path.normpath(p))
        for _, path, text in self.h.writes[:self.h.disks[s]]:
            f = text if path == os.path.normpath(p) else f
        return f if isinstance(f, str) else None

    def call(self, e, s, q):
        """Whether a call for a request tells the truth about state s."""
        p, t = e["p"], self.text(s, e["p"]["uri"])
        if t is None:
            return "the document is not open"
        d = parse(t)
        if not d.get("ok"):
            return "the document does not parse"
        o = d["outline"]
        if e["call"] == "inlay_hints":
            return None if p["tree"] == d["tree"] else "another tree"
        if e["call"] == "code_actions":
            want = [p2o(t, x["line"], x["character"]) for x in (q["params"]["range"]["start"], q["params"]["range"]["end"])]
            if None not in want and p["span"] != want:
                return f"span {p['span']}, not {want}"
            for g, x in zip(p["diags"], q["params"]["context"]["diagnostics"]):
                want = [p2o(t, x["range"][y]["line"], x["range"][y]["character"]) for y in ("start", "end")]
                if None not in want and g[:2] != want:
                    return f"diagnostic span {g[:2]}, not {want}"
                want = [{1: "Error", 2: "Warning", 3: "Info", 4: "Hint"}.get(x.get("severity"), "Hint"), x["message"], x.get("source"), None if x.get("code") is None else str(x["code"])]
                if g[2:] != want:
                    return f"diagnostic {g[2:]}, not {want}"
            return None if len(p["diags"]) == len(q["params"]["context"]["diagnostics"]) else "another number of diagnostics"
        l, c, off = p["cursor"]
        want = p2o(t, l, c)
        if want is None:
            return None
        if off != want:
            return f"offset {off}, not {want}"
        ctx, path = object_at(o, off)
        obj = {"tag": None, "obj": ctx.get("obj", []), "s": None}
        if scrub(p["context"]) != scrub(obj):
            return f"context {scrub(p['context'])[:300]}, not {scrub(obj)[:300]}"
        tg = tagged_at(o, off)
        if scrub(p["tagged"]) != scrub(tg):
            return f"tagged {scrub(p['tagged'])[:300]}, not {scrub(tg)[:300]}"
        if e["call"] != "completions" and p["path"] != (path_at(o, off) or []):
            return f"path {p['path']}, not {path_at(o, off)}"
        if e["call"] == "completions":
            if None not in path and p["path"] != path:
                return f"path {p['path']}, not {path}"
            b = t.encode()[:off].decode()
            k = len(b)
            while k and not b[k - 1].isspace() and b[k - 1] not in "{}(),":
                k -= 1
            # Inside quotes and the like nothing is promised but that it is what stands there.
            if not b.endswith(p["prefix"]) or not b[k:].endswith(p["prefix"]) and p["prefix"]:
                return f"prefix {p['prefix']!r}, not {b[k:]!r}"
        return None

    def judge(self):
        h = self.h
        low = 0                   # the server has surely handled this state
        open_q = {}
        gave, found, seen = {}, [], {}
        for e in h.ev:
            k, n = e["e"], e.get("n")
            if k == "recv":
                m = e["m"]
                if "id" in m and "method" not in m and "result" in m:
                    q = h.reqs.get(m["id"])
                    if q and q["method"].startswith(PREFIX):
                        low = max(low, self.upto(q["n"]))
                elif m.get("method") == "textDocument/publishDiagnostics" and m["params"].get("version") is not None:
                    # It may have been on its way for long; the sets of one document come in order.
                    u = m["params"]["uri"]
                    for s in range(seen.get(u, 0), self.upto(n) + 1):
                        d = h.states[s][1].get(u)
                        if d and d[1] == m["params"]["version"]:
                            seen[u] = s
                            low = max(low, s)
                            break
            elif k == "host":
                open_q[(e["pid"], e["q"])] = (e["what"], low, n)
            elif k == "host_error":
                if (e["pid"], e["q"]) in open_q and "closed" not in e["why"].lower() and "Cancelled" not in e["why"]:
                    self.bad("question answered with an error", f"{json.dumps(open_q[(e['pid'], e['q'])][0], ensure_ascii=False)} was answered with {e['why']}")
            elif k == "host_reply":
                q, lo, n0 = open_q.pop((e["pid"], e["q"]))
                hi = self.upto(n)
                self.count("questions answered")
                self.count("questions: " + q["k"] + (" nothing" if e["a"] is None else ""))
                s = next((s for s in range(lo, hi + 1) if self.right(q, e["a"], s)), None)
                if s is None:
                    old = next((s for s in range(0, lo) if self.right(q, e["a"], s)), None)
                    self.bad(f"question: {q['k']} " + ("answered from older text" if old is not None and e["a"] is not None else "answered wrongly"),
                             f"{json.dumps(q, ensure_ascii=False)} asked at event {n0}, answered at event {n} with {json.dumps(e['a'], ensure_ascii=False)[:600]};\n"
                             f"the text then: {self.text(hi, q['uri'])!r}" + (f"\nwhen it was asked the server had already handled {self.text(lo, q['uri'])!r}" if lo != hi else ""))
                else:
                    low = max(low, s)
            elif k == "ext":
                p = e["p"]
                if e["call"] == "diagnostics":
                    hi = self.upto(n)
                    # Calls for successive texts may overlap, but not after the newer text has been known for long.
                    s = next((s for s in range(hi, -1, -1) if self.text(s, p["uri"]) == p["content"]), None)
                    if s is None:
                        self.bad("diagnostics: of a text that was never sent", f"{p['uri']} at event {n}: {p['content']!r}")
                        continue
                    new = next((x for x in range(s + 1, hi + 1) if self.text(x, p["uri"]) != p["content"]), None)
                    if new is not None and e["t"] - self.times[new] > STALE_MS:
                        self.bad("diagnostics: of text that was replaced long ago", f"{p['uri']} at event {n}, {e['t'] - self.times[new]} ms later: {p['content']!r}")
                    d = parse(p["content"])
                    if p["tree"] != d.get("tree"):
                        self.bad("diagnostics: another tree", f"{p['uri']} at event {n}: {p['content']!r}")
                    self.count("calls: diagnostics")
                elif e["call"] in CALLS:
                    self.request_call(e, n)
            elif k == "ext_gave" and e["what"] == "definition":
                found.append(e)
            elif k == "ext_gave":
                gave[e["key"]] = (e["uri"], e["spans"][0])
        self.published(gave)
        self.offered(gave)
        self.located(found)
        self.settled()
        return self.res

    def settled(self):
        """In the end the extension of every document that has one knows its text."""
        import re
        h = self.h
        for uri, (text, version, i) in h.states[-1][1].items():
            p = parse(text)
            since = next(k for k, x in enumerate(h.states) if x[1].get(uri) == (text, version, i))
            want = self.schema(p["outline"], uri, since) if p.get("ok") else None
            if want is not None and not parse(want).get("ok"):
                continue
            m = re.search(r"launch \((\w+)", want or "")
            if not m or m[1] not in self.case["allowed"]:
                continue
            pids = [e["pid"] for e in h.spawns if e["program"] == m[1]]
            calls = [e["p"]["content"] for e in h.ev if e["e"] == "ext" and e["call"] == "diagnostics" and e["pid"] in pids and e["p"]["uri"] == uri]
            # Overlapping calls may arrive in another order than the texts.
            if text not in calls[-4:]:
                self.bad("extension never told", f"{m[1]} was last told of {uri}: {calls[-1] if calls else None!r}, its text is {text!r}")
            self.count("extensions knowing the last text")

    def request_call(self, e, n):
        h, p = self.h, e["p"]
        m = PREFIX + CALLS[e["call"]]
        why, found = [], 0
        for i, q in h.reqs.items():
            if q["method"] != m or q["n"] > n or q["params"]["textDocument"]["uri"] != p["uri"]:
                continue
            if "cursor" in p and [q["params"]["position"]["line"], q["params"]["position"]["character"]] != p["cursor"][:2]:
                continue
            if e["call"] == "inlay_hints":
                x = q["params"]["range"]
                if [x["start"]["line"], x["start"]["character"], x["end"]["line"], x["end"]["character"]] != p["range"]:
                    continue
            found += 1
            for s in range(self.upto(q["n"]), self.upto(n) + 1):
                w = self.call(e, s, q)
                if w is None:
                    self.count("calls: " + e["call"])
                    return
                why.append((i, s, w))
        if not found:
            self.bad(f"{e['call']}: nobody asked", f"{json.dumps(p, ensure_ascii=False)[:400]} at event {n}")
        else:
            i, s, w = why[-1]
            self.bad(f"{e['call']}: of none of the texts sent since", f"{json.dumps(p, ensure_ascii=False)[:500]} at event {n}\nrequest {i}, state {s} of {sorted({x[1] for x in why})}: {w}\ntext {self.text(s, p['uri'])!r}")

    def published(self, gave):
        """The spans an extension gives are the ranges the editor gets."""
        for n, t, params in self.h.pubs:
            for d in params["diagnostics"]:
                if d.get("source") != "sim-ext" or d["message"] not in gave:
                    continue
                uri, (a, b) = gave[d["message"]]
                texts = [x[1][uri][0] for x in self.h.states if uri in x[1] and x[1][uri][1] == params.get("version")]
                if not texts or uri != params["uri"]:
                    continue
                r = d["range"]
                got = [[r["start"]["line"], r["start"]["character"]], [r["end"]["line"], r["end"]["character"]]]
                if not any([o2p(t, a), o2p(t, b)] == got for t in texts):
                    self.bad("diagnostic of an extension: another range", f"span {[a, b]} became {got} in {texts[-1]!r}")
                self.count("spans of extensions published")

    def window(self, q, m):
        return range(self.upto(q["n"]), self.upto(m[0]) + 1)

    def place(self, s, uri, a, b, asked):
        """(uri, range) of a span an extension gives; None if that document is not open; False if the span is not in it."""
        if uri == "not a uri":
            uri = asked
        t = self.text(s, uri)
        if t is None:
            return None
        x, y = o2p(t, a), o2p(t, b)
        if x is None or y is None:
            return False
        return uri, {"start": {"line": x[0], "character": x[1]}, "end": {"line": y[0], "character": y[1]}}

    def offered(self, gave):
        """What an extension wants to change is what the editor is offered."""
        for i, q in self.h.reqs.items():
            m = self.h.resp.get(i)
            if not m or q["method"] != PREFIX + "codeAction" or not isinstance(m[0][2].get("result"), list):
                continue
            asked = q["params"]["textDocument"]["uri"]
            for a in m[0][2]["result"]:
                if a.get("title") not in gave or not isinstance(a.get("edit"), dict):
                    continue
                uri, (x, y) = gave[a["title"]]
                got = a["edit"].get("changes") or {}
                want = []
                for s in self.window(q, m[0]):
                    w = self.place(s, uri, x, y, asked)
                    want.append({} if w is None else False if w is False else {w[0]: [{"range": w[1], "newText": "x"}]})
                if not any(w is False or w == got for w in want):
                    self.bad("code action of an extension: another change", f"{[uri, x, y]} was offered as {json.dumps(got, ensure_ascii=False)}, not {json.dumps(want[-1], ensure_ascii=False)}; asked for {asked}")
                self.count("spans of extensions in actions" + (" elsewhere" if got and asked not in got else ""))

    def located(self, found):
        """Where an extension finds something is where the editor is sent."""
        for i, q in self.h.reqs.items():
            m = self.h.resp.get(i)
            if not m or q["method"] != PREFIX + "definition" or "result" not in m[0][2]:
                continue
            asked, p = q["params"]["textDocument"]["uri"], q["params"]["position"]
            mine = [e for e in found if q["n"] < e["n"] < m[0][0] and e["asked"] == asked and e["cursor"] == [p["line"], p["character"]] and e["found"]]
            got = m[0][2]["result"] or []
            got = [got] if isinstance(got, dict) else got
            ask = [x for x in self.h.reqs.values() if x["method"] == q["method"] and x["params"]["textDocument"]["uri"] == asked and x["params"]["position"] == p]
            if len(mine) != 1 or len(ask) != 1:
                continue
            want = []
            for s in self.window(q, m[0]):
                w = [self.place(s, *x, asked) for x in mine[0]["found"]]
                want.append(False if False in w else [{"uri": x[0], "range": x[1]} for x in w if x is not None])
            if not any(w is False or w == got for w in want):
                self.bad("definition of an extension: another place", f"{json.dumps(mine[0]['found'])} was given as {json.dumps(got, ensure_ascii=False)}, not {json.dumps(want[-1], ensure_ascii=False)}")
            self.count("places of extensions" + (" elsewhere" if any(l["uri"] != asked for l in got) else ""))


def judge_e08(case, out=None):
    h = run_case(case)
    if out is not None:
        note(out, h)
    if h.dead:
        return h, died(h)
    res = Told(h, out).judge()
    for e in h.of("server_end"):
        res.setdefault("server ended", f"at {e['t']} ms without being asked to (ok {e['ok']}, panic {e['panic']})")
    return h, sorted(res.items())


def make():
    return make_session("E08", judge_e08, e08_case, {"quick": 4000, "thorough": 100000},
                        "seeded sessions in which extensions ask about open, closed, unknown and changing documents during and between calls; every call and every reply compared with the texts the editor had sent, by an independent converter and the real parser; distinct = distinct order of observable events")
