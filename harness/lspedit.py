"""E07: positions and edits, as an editor that counts UTF-16 code units sees them."""
from lspprops import *
from lsp import Oracle, index_of, lines_of, pos_of, u16, byte_index

TD = "textDocument/"
ORACLE = None


def oracle():
    global ORACLE
    if ORACLE is None or ORACLE[0] != os.getpid():
        ORACLE = (os.getpid(), Oracle())
    return ORACLE[1]


def parse(text):
    return oracle().ask(q="parse", text=text)


# ---------------------------------------------------------------- what the simulated editor does
def char_index(text, byte):
    return len(text.encode()[:byte].decode("utf-8", "replace"))


def spans(o, out=None):
    """All keys and values of an outline: [(kind, start, end)] in bytes."""
    out = [] if out is None else out
    if o.get("s"):
        out.append(("value", *o["s"]))
    for e in o.get("obj", []):
        if e["ks"]:
            out.append(("key", *e["ks"]))
        spans(e["v"], out)
    for x in o.get("seq", []):
        spans(x, out)
    return out


def interesting(r, text):
    """An index into the text, usually at or in a key or value."""
    if r.chance(25):
        return r.below(len(text) + 1)
    p = parse(text)
    sp = spans(p["outline"]) if p.get("ok") else []
    if not sp:
        return r.below(len(text) + 1)
    keys = [x for x in sp if x[0] == "key"]
    k, a, b = r.pick(keys if keys and r.chance(65) else sp)
    a, b = char_index(text, a), char_index(text, b)
    return r.pick([a, b, a + r.below(b - a + 1), a + r.below(b - a + 1)])


def ask(op, ed):
    """["ask", id, path, method, seed]"""
    _, i, path, m, seed = op
    text = ed.text.get(path)
    r = Rng("ask", seed)
    if text is None:
        return None
    p = {}
    if m in ("hover", "completion", "definition", "references", "onTypeFormatting"):
        p["position"] = pos_of(text, interesting(r, text))
    if m == "references":
        p["context"] = {"includeDeclaration": True}
    if m in ("formatting", "onTypeFormatting"):
        p["options"] = {"tabSize": r.pick([2, 4, 1, 8]), "insertSpaces": r.chance(75)}
    if m == "onTypeFormatting":
        p["ch"] = "\n"
        if ed.__dict__.get("typed", {}).get(path) is not None:
            p["position"] = ed.typed.pop(path)
    if m == "codeAction":
        a = interesting(r, text)
        b = a if r.chance(50) else max(a, interesting(r, text))
        p["range"] = {"start": pos_of(text, a), "end": pos_of(text, b)}
        p["context"] = {"diagnostics": ed.diags(path)}
    if m == "inlayHint":
        p["range"] = {"start": {"line": 0, "character": 0}, "end": pos_of(text, len(text))}
    return ed.request(i, path, TD + m, p)


def edit_sets(m, uri, method):
    """What can be applied from an answer: [(title, [edits])]"""
    res = m.get("result")
    if not res:
        return []
    if method in (TD + "formatting", TD + "onTypeFormatting"):
        return [(method, res)]
    if method == TD + "codeAction":
        return [(a["title"], a["edit"]["changes"][uri]) for a in res if isinstance(a.get("edit"), dict) and uri in (a["edit"].get("changes") or {})]
    if method == TD + "completion":
        return [("complete " + c["label"], [c["textEdit"]]) for c in res if "textEdit" in c]
    return []


def apply_edits(text, edits):
    """The text with the edits, as the protocol prescribes; None when they cannot be applied."""
    sp = []
    for e in edits:
        a, b = index_of(text, e["range"]["start"]), index_of(text, e["range"]["end"])
        if a is None or b is None or b < a:
            return None
        sp.append((a, b, e["newText"]))
    sp.sort(key=lambda x: (x[0], x[1]))
    for x, y in zip(sp, sp[1:]):
        if y[0] < x[1]:
            return None
    for a, b, t in reversed(sp):
        text = text[:a] + t + text[b:]
    return text


def apply(op, ed):
    """["apply", path, request id, which, version]"""
    _, path, rid, which, version = op
    m = ed.answer(rid)
    if m is None or rid not in ed.asked or ed.asked[rid] != (path, ed.text.get(path)) or path not in ed.text:
        return None
    sets = edit_sets(m, ed.uri(path), next((TD + o[3] for o in ed.h.case["script"] if o[0] == "ask" and o[1] == rid), ""))
    if not sets:
        return None
    new = apply_edits(ed.text[path], sets[which % len(sets)][1])
    return None if new is None else ed.change(path, new, version)


def newline(op, ed):
    """["newline", path, seed, version]: press Enter."""
    _, path, seed, version = op
    text = ed.text.get(path)
    if text is None:
        return None
    r = Rng("newline", seed)
    ls = lines_of(text)
    s, start = r.pick(ls)
    i = start + len(s) if r.chance(75) else start + r.below(len(s) + 1)
    nl = "\r\n" if "\r\n" in text else "\n"
    rest = text[i:]
    new = text[:i] + nl + rest
    ed.__dict__.setdefault("typed", {})[path] = pos_of(new, i + len(nl))
    return ed.change(path, new, version)


def typing(op, ed):
    """["type", path, seed, version]: any other small change."""
    _, path, seed, version = op
    text = ed.text.get(path)
    if text is None:
        return None
    r = Rng("type", seed)
    k = r.below(6)
    if k == 0 and text:
        i = r.below(len(text))
        new = text[:i] + text[i + 1 + r.below(3):]
    elif k == 1:
        ls = text.split("\n")
        i = r.below(len(ls))
        ls[i:i + 1] = [] if r.chance(40) else [ls[i], ls[i]] if r.chance(20) else [r.pick(["zz 1", "// wörd 🎉", "", "/// doc", "  🎉k {a 1}"]), ls[i]]
        new = "\n".join(ls)
    elif k == 2:
        # An unfinished word, as one asks for completion
        i = interesting(r, text)
        new = text[:i] + r.pick(["na", "po", "größ", "🎉", "x", "ser", "n\n", "\nna", "\n  po"]) + text[i:]
    elif k == 3:
        ls = text.split("\n")
        a, b = r.below(len(ls)), r.below(len(ls))
        ls[a], ls[b] = ls[b], ls[a]
        new = "\n".join(ls)
    elif k == 4:
        new = text.replace("\r\n", "\n") if "\r\n" in text else text.replace("\n", "\r\n")
    else:
        i = r.below(len(text) + 1)
        new = text[:i] + r.pick(G.TYPED) + text[i:]
    return ed.change(path, new, version)


DYNAMIC.update(ask=ask, apply=apply, newline=newline, type=typing)


# ------------------------------------------------------------------------------------ the checks
class Bad(Exception):
    def __init__(self, cls, text):
        self.cls, self.text = cls, text


def bad(cls, text):
    raise Bad(cls, text)


def within(text, rng, what):
    """The text a range covers."""
    a, b = index_of(text, rng["start"]), index_of(text, rng["end"])
    if a is None or b is None or a > b:
        bad(f"{what}: range outside the text", f"{json.dumps(rng)} in {text!r}")
    return a, b


def rng_of(text, byte_span):
    return {"start": pos_of(text, char_index(text, byte_span[0])), "end": pos_of(text, char_index(text, byte_span[1]))}


def norm(o):
    """What a document means, without its layout."""
    if "obj" in o:
        v = ["obj", [[e["key"], e["unit"], e["schema"], e["doc"], norm(e["v"])] for e in o["obj"]]]
    elif "seq" in o:
        v = ["seq", [norm(x) for x in o["seq"]]]
    elif "text" in o:
        v = ["text", o["text"]]
    else:
        v = ["unit"]
    return [o.get("tag"), v]


def key_of(src):
    """What a key written like this is called."""
    p = parse(src)
    if p.get("ok") and len(p["outline"].get("obj", [])) == 1:
        return p["outline"]["obj"][0]["key"]
    return None


def check_symbols(text, res, o):
    def want(o):
        return [e for e in o.get("obj", []) if not e["unit"] and e["key"] is not None and e["ks"] and e["v"].get("s")]

    def go(syms, o):
        es = want(o)
        if [s["name"] for s in syms] != [e["key"] for e in es]:
            bad("documentSymbol: not the keys", f"{[s['name'] for s in syms]} for the keys {[e['key'] for e in es]}")
        for s, e in zip(syms, es):
            a, b = within(text, s["selectionRange"], "documentSymbol")
            c, d = within(text, s["range"], "documentSymbol")
            if s["selectionRange"] != rng_of(text, e["ks"]):
                bad("documentSymbol: not the key's range", f"{s['name']!r}: {text[a:b]!r}")
            if not (c <= a and b <= d):
                bad("documentSymbol: name outside the symbol", f"{s['name']!r}")
            if (c, d) != (a, char_index(text, max(e["v"]["s"][1], e["ks"][1]))):
                bad("documentSymbol: not the entry's range", f"{s['name']!r}: {text[c:d]!r}")
            if s.get("detail") not in (None, "array", "@") and s["detail"] != text.encode()[e["v"]["s"][0]:e["v"]["s"][1]].decode():
                bad("documentSymbol: not the value's text", f"{s['name']!r}: {s['detail']!r}")
            go(s.get("children") or [], e["v"])
    go(res or [], o)


def pieces(text):
    """The parts of source tokens on each line, in bytes -> kind."""
    res, b = {}, text.encode()
    edges = []
    for s, start in lines_of(text):
        a = len(text[:start].encode())
        edges.append((a, a + len(s.encode())))
    for a, z, kind in oracle().ask(q="tokens", text=text):
        for x, y in edges:
            p, q = max(a, x), min(z, y)
            if p < q:
                res[(p, q)] = kind
    return res


TYPES = {0: {"LINE_COMMENT", "DOC_COMMENT"}, 4: {"TAG_TOKEN", "AT", "ENTRY"}}


def check_tokens(text, res, o):
    ps = pieces(text)
    line = ch = 0
    last = -1
    seen = {}
    d = (res or {}).get("data", [])
    ls = lines_of(text)
    for i in range(0, len(d), 5):
        dl, dc, n, typ, mod = d[i:i + 5]
        line, ch = line + dl, (dc if dl else ch + dc)
        r = {"start": {"line": line, "character": ch}, "end": {"line": line, "character": ch + n}}
        a, b = within(text, r, "semanticTokens")
        x, y = byte_index(text, a), byte_index(text, b)
        if x < last:
            bad("semanticTokens: overlap", f"{json.dumps(r)} {text[a:b]!r}")
        last = y
        if (x, y) not in ps:
            bad("semanticTokens: not a source token", f"{json.dumps(r)} covers {text[a:b]!r}")
        kind = ps[(x, y)]
        seen[(x, y)] = typ
        if (typ == 0) != (kind in TYPES[0]) or mod and kind != "DOC_COMMENT" or kind == "DOC_COMMENT" and not mod:
            bad("semanticTokens: comment or not", f"{text[a:b]!r} is a {kind}, announced as type {typ} modifiers {mod}")
    return seen


def find_key(o, name):
    """All keys with a name, anywhere in an outline: [ks]"""
    res = []
    for e in o.get("obj", []):
        if e["key"] == name and e["ks"]:
            res.append(e["ks"])
        res += find_key(e["v"], name)
    for x in o.get("seq", []):
        res += find_key(x, name)
    return res


def key_path_at(o, byte):
    """The path of keys around a byte offset: what the cursor is on, or in."""
    for e in o.get("obj", []):
        ks, vs = e["ks"], e["v"].get("s")
        if ks and ks[0] <= byte < ks[1]:
            return [(e["key"], "key")]
        if vs and vs[0] <= byte < vs[1]:
            sub = key_path_at(e["v"], byte)
            return [(e["key"], "value")] + sub
    for i, v in enumerate(o.get("seq", [])):
        vs = v.get("s")
        if vs and vs[0] <= byte < vs[1]:
            return [(i, "item")] + key_path_at(v, byte)
    return []


def schema_value(o):
    for e in o.get("obj", []):
        if e["schema"]:
            return e
    return None


class Judge:
    def __init__(self, h, out):
        self.h, self.out, self.root = h, out, h.root
        self.case = h.case
        self.files = {}

    def count(self, what):
        if self.out is not None:
            self.out.count("reach:" + what)

    def text_of(self, uri, docs):
        """What is at a URI: the editor's text, or the file."""
        from urllib.parse import unquote
        if uri in docs:
            return docs[uri][0]
        p = unquote(uri[len("file://"):]) if uri.startswith("file://") else None
        if p and p.startswith(self.root) and os.path.isfile(p):
            with open(p, newline="") as f:
                return f.read()
        return None

    def schema_of(self, o, uri):
        """The model of a document's schema."""
        e = schema_value(o)
        if not e:
            return None
        v = e["v"]
        for sc in self.case["schemas"]:
            if v.get("text") is not None and v["text"] == sc.get("file") and uri.startswith(f"file://{self.root}/w/") and uri.count("/") == f"file://{self.root}/w/x".count("/"):
                return sc
            if "obj" in v and "cli" in sc:
                m = {x["key"]: x["v"].get("text") for x in v["obj"]}
                if m.get("id") == sc["id"] and m.get("cli") == sc["cli"]:
                    return sc
        return None

    def location(self, loc, docs, name, what):
        # What a schema says is read from the disk.
        disk = any("file" in sc and loc["uri"].endswith("/w/" + sc["file"]) for sc in self.case["schemas"])
        t = self.text_of(loc["uri"], {} if disk else docs)
        if t is None:
            bad(f"{what}: location in nothing", json.dumps(loc))
        a, b = within(t, loc["range"], what)
        p = parse(t)
        if not p.get("ok"):
            bad(f"{what}: location in a broken document", json.dumps(loc))
        if [byte_index(t, a), byte_index(t, b)] not in find_key(p["outline"], name):
            bad(f"{what}: not the field", f"{json.dumps(loc)} covers {t[a:b]!r}, the field is {name!r}")

    # ---- one answer
    def answer(self, q, m, docs):
        method = q["method"][len(TD):]
        uri = q["params"]["textDocument"]["uri"]
        if uri not in docs or "error" in m:
            if "error" in m:
                bad(f"{method}: error", json.dumps(m["error"]))
            return
        text, res = docs[uri][0], m.get("result")
        p = parse(text)
        ok = p.get("ok", False)
        o = p["outline"] if ok else None
        f = getattr(self, "do_" + method.replace("/", "_"), None)
        self.count(method + (" non-empty" if nonempty(["result", res]) else " empty"))
        if f:
            f(q, res, text, o, docs, uri)

    def do_documentSymbol(self, q, res, text, o, docs, uri):
        if o is not None:
            check_symbols(text, res, o)
        elif res:
            bad("documentSymbol: of a broken document", json.dumps(res)[:300])

    def do_semanticTokens_full(self, q, res, text, o, docs, uri):
        seen = check_tokens(text, res, o)
        if o is not None:
            comments(text, seen, o)

    def do_documentLink(self, q, res, text, o, docs, uri):
        e = schema_value(o) if o else None
        for l in res or []:
            within(text, l["range"], "documentLink")
            if not e or l["range"] != rng_of(text, e["v"]["s"]):
                bad("documentLink: not the declaration", json.dumps(l))
        if o and e and self.schema_of(o, uri) and not res:
            bad("documentLink: missing", text)

    def do_inlayHint(self, q, res, text, o, docs, uri):
        e = schema_value(o) if o else None
        for l in res or []:
            if index_of(text, l["position"]) is None or not e or l["position"] != rng_of(text, e["v"]["s"])["end"]:
                bad("inlayHint: not behind the declaration", json.dumps(l))

    def do_hover(self, q, res, text, o, docs, uri):
        e = schema_value(o) if o else None
        if res and res.get("range"):
            within(text, res["range"], "hover")
            if not e or res["range"] != rng_of(text, e["v"]["s"]):
                bad("hover: not the declaration", json.dumps(res))
        sc = o and self.schema_of(o, uri)
        if sc:
            path = key_path_at(o, byte_index(text, index_of(text, q["params"]["position"])))
            if len(path) == 1 and path[0][1] == "key" and any(f[0] == path[0][0] for f in sc["fields"]):
                if not res:
                    bad("hover: nothing on a field", f"on {path[0][0]!r} in {text!r}")
                f = next(f for f in sc["fields"] if f[0] == path[0][0])
                v = res["contents"]["value"]
                if f[3] and f[3] not in v:
                    bad("hover: not the field's documentation", f"on {f[0]!r}: {v!r}")
                self.count("hover on a documented field" if f[3] else "hover on a field")

    def do_definition(self, q, res, text, o, docs, uri):
        locs = res if isinstance(res, list) else [res] if res else []
        if o is None:
            if locs:
                bad("definition: in a broken document", json.dumps(res))
            return
        byte = byte_index(text, index_of(text, q["params"]["position"]))
        e = schema_value(o)
        sc = self.schema_of(o, uri)
        if e and e["v"].get("s") and e["v"]["s"][0] <= byte <= e["v"]["s"][1]:
            for l in locs:
                if l["range"] != {"start": {"line": 0, "character": 0}, "end": {"line": 0, "character": 0}}:
                    bad("definition: of a declaration", json.dumps(l))
            if sc and not locs:
                bad("definition: nothing for the declaration", text)
            return
        path = key_path_at(o, byte)
        name = path[-1][0] if path else None
        for l in locs:
            self.location(l, docs, name, "definition")
        if sc and path and len(path) == 1 and any(f[0] == name for f in sc["fields"]):
            if not locs:
                bad("definition: nothing for a field", f"{name!r} in {text!r}")
            self.count("definition of a field")

    def do_references(self, q, res, text, o, docs, uri):
        if o is None:
            if res:
                bad("references: in a broken document", json.dumps(res))
            return
        byte = byte_index(text, index_of(text, q["params"]["position"]))
        path = key_path_at(o, byte)
        name = path[-1][0] if path else None
        for l in res or []:
            self.location(l, docs, name, "references")
        if len({json.dumps(x, sort_keys=True) for x in res or []}) != len(res or []):
            bad("references: the same twice", json.dumps(res))
        sc = self.schema_of(o, uri)
        if sc and len(path) == 1 and any(f[0] == name for f in sc["fields"]):
            want = set()
            for u, d in docs.items():
                p = parse(d[0])
                if p.get("ok") and self.schema_of(p["outline"], u) is sc and any(e["key"] == name for e in p["outline"].get("obj", [])):
                    want.add(u)
            got = {l["uri"] for l in res or []}
            if not want <= got:
                bad("references: a document is missing", f"{name!r}: {sorted(got)}, used in {sorted(want)}")
            self.count("references of a field")

    # ---- edits
    def edited(self, text, edits, what):
        for e in edits:
            within(text, e["range"], what)
        new = apply_edits(text, edits)
        if new is None:
            bad(f"{what}: edits overlap", json.dumps(edits))
        return new

    def do_formatting(self, q, res, text, o, docs, uri):
        if o is None:
            if res:
                bad("formatting: of a broken document", json.dumps(res)[:300])
            return
        opt = q["params"]["options"]
        want = oracle().ask(q="format", text=text, indent=" " * opt["tabSize"] if opt["insertSpaces"] else "\t")
        new = self.edited(text, res or [], "formatting")
        if new != want:
            bad("formatting: not the formatter's output", f"{text!r}\nbecomes {new!r}\ninstead of {want!r}")
        if not res:
            return
        p = parse(new)
        if not p.get("ok") or norm(p["outline"]) != norm(o):
            # The formatter itself is not this property's subject; asking again must still end.
            self.count("formatting changes what is read")
        self.count("formatting applied")

    def do_onTypeFormatting(self, q, res, text, o, docs, uri):
        new = self.edited(text, res or [], "onTypeFormatting")
        i = index_of(text, q["params"]["position"])
        ls = lines_of(text)
        l = q["params"]["position"]["line"]
        nls = lines_of(new)
        if len(ls) != len(nls) or any(a[0] != b[0] for k, (a, b) in enumerate(zip(ls, nls)) if k != l) or ls[l][0].lstrip(" \t") != nls[l][0].lstrip(" \t"):
            bad("onTypeFormatting: more than the indentation", f"{text!r}\nbecomes {new!r}")
        toks = oracle().ask(q="tokens", text=text)
        start = byte_index(text, ls[l][1])
        inside = [t for t in toks if t[0] < start < t[1] and t[2] not in ("WHITESPACE", "NEWLINE")]
        hd = [t for t in toks if t[2] in ("HEREDOC_START", "HEREDOC_CONTENT") and t[0] < start <= t[1] or t[2] == "HEREDOC_CONTENT" and t[0] <= start < t[1]]
        if inside or hd:
            if new != text:
                bad("onTypeFormatting: inside a value", f"{text!r}\nbecomes {new!r}")
            return
        if o is not None:
            p = parse(new)
            if not p.get("ok") or norm(p["outline"]) != norm(o):
                bad("onTypeFormatting: changes the document", f"{text!r}\nbecomes {new!r}")
            at = byte_index(text, i)
            depth = sum({"L_BRACE": 1, "L_PAREN": 1, "R_BRACE": -1, "R_PAREN": -1}.get(t[2], 0) for t in toks if t[1] <= at)
            opt = q["params"]["options"]
            want = (" " * opt["tabSize"] if opt["insertSpaces"] else "\t") * depth
            got = nls[l][0][:len(nls[l][0]) - len(nls[l][0].lstrip(" \t"))]
            if got != want:
                bad("onTypeFormatting: not the depth", f"{text!r} at {q['params']['position']}\nbecomes {new!r}, the cursor is {depth} deep")
            self.count("newline indented" if depth else "newline at the root")

    def do_completion(self, q, res, text, o, docs, uri):
        if o is None:
            if res:
                bad("completion: in a broken document", json.dumps(res)[:300])
            return
        i = index_of(text, q["params"]["position"])
        sc = self.schema_of(o, uri)
        ctx, path = object_at(o, byte_index(text, i))
        have = {e["key"] for e in ctx.get("obj", [])}
        fields = fields_at(sc, path) if sc else None
        labels = []
        for c in res or []:
            e = c.get("textEdit")
            labels.append(c["label"])
            if e is None:
                bad("completion: no edit", json.dumps(c))
            a, b = within(text, e["range"], "completion")
            if b != i or any(x in text[a:b] for x in " \t\r\n{}(),"):
                bad("completion: not the word at the cursor", f"{text[a:b]!r} at {q['params']['position']} in {text!r}")
            if a and word(text[a - 1]):
                bad("completion: part of a word", f"{text[a:b]!r} at {q['params']['position']} in {text!r}")
            if key_of(e["newText"].rstrip(" ")) != c["label"] or not e["newText"].endswith(" "):
                bad("completion: not its label", json.dumps(c))
            if c["label"] in have:
                bad("completion: a field that is there", f"{c['label']!r} {text!r}")
            if fields is not None and c["label"] not in {f[0] for f in fields}:
                bad("completion: not a field", f"{c['label']!r} is none of {[f[0] for f in fields]} at {path}")
        if fields is not None and len(fields) < 50:
            missing = {f[0] for f in fields} - have - set(labels)
            if missing:
                self.count("completion without some fields")
            self.count("completion of fields at depth %d" % len(path))
        if len(set(labels)) != len(labels):
            bad("completion: the same twice", str(labels))

    def do_codeAction(self, q, res, text, o, docs, uri):
        diags = q["params"]["context"]["diagnostics"]
        titles = {}
        for a in res or []:
            if not isinstance(a.get("edit"), dict):
                continue
            ch = a["edit"].get("changes") or {}
            if set(ch) != {uri}:
                bad("codeAction: other documents", json.dumps(a)[:400])
            new = self.edited(text, ch[uri], "codeAction")
            p = parse(new)
            if o is None or not p.get("ok"):
                bad("codeAction: of or to a broken document", f"{a['title']}\n{text!r}\nbecomes {new!r}")
            n = p["outline"]
            t = a["title"]
            titles[t] = a
            old, now = norm(o), norm(n)
            if stripped(p["comments"]) != stripped(parse(text)["comments"]) and not t.startswith("Reorder"):
                bad("codeAction: changes comments", f"{t}\n{text!r}\nbecomes {new!r}")
            kind = t.split(" ")[0]
            self.count("action " + kind)
            if t.startswith("Add ") or t.startswith("Don't use"):
                f = now[1][1][0] if now[1][0] == "obj" and now[1][1] else None
                if not f or not f[2] or now[1][1][1:] != old[1][1]:
                    bad("codeAction: more than the declaration", f"{t}\n{text!r}\nbecomes {new!r}")
                decl = a["diagnostics"][0]["data"]["declaration"] if t.startswith("Add ") else "@schema @"
                if norm(parse(decl)["outline"])[1][1][0] != f:
                    bad("codeAction: not the declaration", f"{t}\n{text!r}\nbecomes {new!r}")
            elif t.startswith("Rename "):
                d = a["diagnostics"][0]
                src, to = d["data"]["from"], d["data"]["to"]
                ks = [byte_index(text, index_of(text, d["range"][x])) for x in ("start", "end")]
                if renamed(o, ks, src, to) != now:
                    bad("codeAction: more than the name", f"{t}\n{text!r}\nbecomes {new!r}")
            elif t.startswith("Fill "):
                self.filled(t, q, text, o, n, new, uri)
            elif t.startswith("Reorder "):
                self.reordered(t, text, o, n, new, uri)
            else:
                bad("codeAction: unknown", t)

    def filled(self, t, q, text, o, n, new, uri):
        i = byte_index(text, index_of(text, q["params"]["range"]["start"]))
        ctx, path = object_at(o, i)
        added = None

        def go(a, b, here):
            nonlocal added
            if a.get("tag") != b.get("tag") or ("obj" in a) != ("obj" in b):
                return False
            if "obj" not in a:
                return norm(a) == norm(b) if "seq" not in a or not here else len(a["seq"]) == len(b.get("seq", [])) and all(go(x, y, True) for x, y in zip(a["seq"], b["seq"]))
            x, y = a["obj"], b["obj"]
            if len(y) > len(x):
                if added is not None:
                    return False
                added = (a, y[len(x):])
                y = y[:len(x)]
            return len(x) == len(y) and all(e["key"] == g["key"] and e["schema"] == g["schema"] and e["unit"] == g["unit"] and e["doc"] == g["doc"] and go(e["v"], g["v"], True) for e, g in zip(x, y))

        if not go(o, n, True) or added is None:
            bad("codeAction: more than new fields", f"{t}\n{text!r}\nbecomes {new!r}")
        obj, es = added
        if obj is not ctx:
            bad("codeAction: fields in another object", f"{t} at {q['params']['range']['start']}\n{text!r}\nbecomes {new!r}")
        count = int([w for w in t.split(" ") if w.isdigit()][0])
        if count != len(es):
            bad("codeAction: not as many fields", f"{t}\n{text!r}\nbecomes {new!r}")
        sc = self.schema_of(o, uri)
        fields = fields_at(sc, path) if sc else None
        if fields is not None:
            have = {e["key"] for e in ctx["obj"]}
            want = {f[0] for f in fields if f[0] not in have and (f[1] != "opt" or t.startswith("Fill all"))}
            if {e["key"] for e in es} != want:
                bad("codeAction: not the missing fields", f"{t}: {sorted(want)}\n{text!r}\nbecomes {new!r}")
            for e in es:
                f = next(f for f in fields if f[0] == e["key"])
                if f[1] == "default" and e["v"].get("text") != {"string": "dflt", "int": "7", "bool": "true"}[f[2][0]]:
                    bad("codeAction: not the default", f"{t}\n{text!r}\nbecomes {new!r}")
        self.count("fields filled at depth %d" % len(path))

    def reordered(self, t, text, o, n, new, uri):
        x, y = norm(o)[1][1], norm(n)[1][1]
        k = lambda l: sorted(json.dumps(e) for e in l)
        if k(x) != k(y):
            bad("codeAction: more than the order", f"{t}\n{text!r}\nbecomes {new!r}")
        ls = lambda s: sorted(z for z, _ in lines_of(s) if z.strip())
        if ls(text) != ls(new) or abs(len(lines_of(text)) - len(lines_of(new))) > 1:
            bad("codeAction: not the same lines", f"{t}\n{text!r}\nbecomes {new!r}")
        sc = self.schema_of(o, uri)
        if sc:
            order = [f[0] for f in sc["fields"]]
            rank = lambda e: 0 if e[2] else order.index(e[0]) + 1 if e[0] in order else 1 << 30
            if [rank(e) for e in y] != sorted(rank(e) for e in x) or [e for e in y if rank(e) == 1 << 30] != [e for e in x if rank(e) == 1 << 30]:
                bad("codeAction: not the schema's order", f"{order}\n{text!r}\nbecomes {new!r}")
        if above(text, o) != above(new, n):
            bad("codeAction: comments moved away", f"{text!r}\nbecomes {new!r}")

    # ---- published diagnostics
    def diags(self, params, text):
        p = parse(text)
        for d in params["diagnostics"]:
            a, b = within(text, d["range"], "diagnostic")
            m = d["message"]
            self.count("diagnostic " + str(d.get("source")))
            dt = d.get("data") or {}
            if m.startswith("unknown field '"):
                name = m.split("'", 1)[1].rsplit("'", 1)[0] if m.count("'") == 2 else None
                if not any(m.startswith(f"unknown field '{k}'") for k in (key_of(text[a:b]), text[a:b])):
                    bad("diagnostic: not the unknown field", f"{m!r} covers {text[a:b]!r}")
                self.count("diagnostic on the unknown field")
            if dt.get("type") == "rename_field" and dt["from"] not in (key_of(text[a:b]), text[a:b]):
                bad("diagnostic: not the field to rename", f"{json.dumps(dt)} covers {text[a:b]!r}")
            if m.startswith("duplicate key") and key_of(text[a:b]) is not None and not any(f"{q}{k}{q}" in m for q in "'`" for k in (key_of(text[a:b]), text[a:b])):
                bad("diagnostic: not the duplicate", f"{m!r} covers {text[a:b]!r}")
            if m.startswith("type mismatch") and p.get("ok"):
                x, y = byte_index(text, a), byte_index(text, b)
                if not any(k == "value" and (s, e) == (x, y) for k, s, e in spans(p["outline"])):
                    bad("diagnostic: not a value", f"{m!r} covers {text[a:b]!r}")
                self.count("diagnostic on the mismatched value")


def stripped(comments):
    return [c.rstrip() for c in comments]


def word(c):
    return c.isalnum() or c in "_-"


def owner_of(o, ks):
    for e in o.get("obj", []):
        if e["ks"] == ks:
            return o
        r = owner_of(e["v"], ks)
        if r is not None:
            return r
    for x in o.get("seq", []):
        r = owner_of(x, ks)
        if r is not None:
            return r
    return None


def renamed(o, ks, src, to):
    o = json.loads(json.dumps(o))
    w = owner_of(o, ks)
    for e in (w or {}).get("obj", []):
        if e["ks"] == ks and e["key"] == src:
            e["key"] = to
    return norm(o)


def object_at(o, byte, root=True):
    """The innermost object around an offset, and the path to it."""
    for e in o.get("obj", []):
        v = e["v"]
        if root and e["schema"]:
            continue  # The declaration is not part of what the schema describes
        if v.get("s") and v["s"][0] <= byte <= v["s"][1] and "obj" in v:
            ctx, path = object_at(v, byte, False)
            return ctx, [e["key"]] + (["@" + v["tag"]] if v.get("tag") else []) + path
    return o, []


def fields_at(sc, path):
    """The fields the schema has for the object at a path; None when that is not an object in the model."""
    t = ["object", sc["fields"]]
    seen = 0
    if None in path:
        return None
    for k in path + [None]:
        while t[0] == "ref":
            t = sc["types"].get(t[1])
            seen += 1
            if t is None or seen > 20:
                return None
        if k is None:
            return t[1] if t[0] == "object" else None
        if t[0] == "object":
            f = [f for f in t[1] if f[0] == k]
            if not f:
                return None
            t = f[0][2]
        elif t[0] == "map":
            t = t[1]
        elif t[0] == "enum" and k.startswith("@"):
            v = [p for v, p in t[1] if "@" + v == k]
            if not v:
                return None
            t = v[0]
        else:
            return None
    return None


def one_per_line(text, o):
    """Every root entry begins a line, and nothing follows it but a comment."""
    b = text.encode()
    if not o["obj"]:
        return False

    def end(v, ks):
        e = max((v.get("s") or [0, 0])[1], ks[1])
        for x in v.get("obj", []):
            e = max(e, end(x["v"], x["ks"] or [0, 0]))
        for x in v.get("seq", []):
            e = max(e, end(x, [0, 0]))
        return e
    for e in o["obj"]:
        if not e["ks"] or e["unit"] and not e["schema"]:
            return False
        s = b.rfind(b"\n", 0, e["ks"][0]) + 1
        if b[s:e["ks"][0]].strip(b" \t@"):
            return False
        z = end(e["v"], e["ks"])
        n = b.find(b"\n", z)
        rest = b[z:n if n >= 0 else len(b)].strip()
        if rest and not rest.startswith(b"//"):
            return False
    return b"\r" not in b.replace(b"\r\n", b"")


def above(text, o):
    """The comment lines directly above each root entry."""
    b = text.encode()
    res = {}
    first = True
    for e in o["obj"]:
        if not e["ks"]:
            continue
        up = b[:e["ks"][0]].decode().replace("\r\n", "\n").split("\n")[:-1]
        cs = []
        while up and up[-1].strip().startswith("//"):
            cs.insert(0, up.pop().strip())
        res[json.dumps([e["key"], e["schema"]])] = cs
    return res


def comments(text, seen, o):
    """Every key is announced as one token."""
    b = text.encode()

    def go(o):
        for e in o.get("obj", []):
            if e["ks"] and not e["unit"] and e["key"] is not None and not any(a <= e["ks"][0] and e["ks"][1] <= z for a, z in seen) and b"\n" not in b[e["ks"][0]:e["ks"][1]]:
                bad("semanticTokens: key without token", f"{e['key']!r} in {text!r}")
            go(e["v"])
        for x in o.get("seq", []):
            go(x)
    go(o)


def judge_e07(case, out=None):
    h = run_case(case)
    if out is not None:
        note(out, h)
    res = {}
    for c, t in died(h):
        res.setdefault(c, t)
    if h.dead:
        return h, sorted(res.items())
    j = Judge(h, out)
    for i, q in h.reqs.items():
        if i not in h.resp or not q["method"].startswith(TD):
            continue
        n, _, m = h.resp[i][0]
        k = h.at(q["n"])
        if h.at(n) != k:
            continue
        try:
            j.answer(q, m, h.states[k][1])
        except Bad as b:
            res.setdefault(b.cls, f"{q['method']} {json.dumps({x: y for x, y in q['params'].items() if x not in ('textDocument', 'context')})} on {q['params']['textDocument']['uri']}\n{b.text}")
    for n, _, p in h.pubs:
        k = h.at(n)
        st = [s for m, s in h.states[:k + 1] if p["uri"] in s and s[p["uri"]][1] == p.get("version")]
        if not st or p.get("version") is None:
            continue
        try:
            j.diags(p, st[-1][p["uri"]][0])
        except Bad as b:
            res.setdefault(b.cls, f"published for {p['uri']} version {p.get('version')}: {b.text}")
    return h, sorted(res.items())


def e07_case(i, r):
    w = G.gen_workspace(r, ext=0)
    files = dict(w["files"])
    case = {"dir": f"{SCRATCH}/E07-{i}", "files": files, "seed": 1 + r.below(1 << 30), "in": r.pick(PIPES), "out": r.pick(PIPES), "exts": {}, "schemas": w["schemas"],
            "uris": [G.uri_of(d[0]) for d in w["docs"]], "pause": r.pick([0, 0, 30]), "wild": True, "keep": True}
    script, ver = [], {}
    nid = 100
    paths = [d[0] for d in w["docs"]]
    for p, s in w["docs"]:
        t = files[p] if s == "schema" else G.gen_doc(r, w["schemas"][s] if s is not None else None, broken=4, faulty=35)
        ver[p] = 1
        script.append(["open", p, t, 1])
    WAIT = ["wait", 4000]
    script.append(WAIT)
    for _ in range(r.pick([4, 8, 14, 25])):
        p = r.pick(paths)
        k = r.weighted([("look", 6), ("fix", 6), ("format", 3), ("newline", 4), ("complete", 4), ("type", 6)])

        def step(op):
            ver[p] += 1
            script.extend([op + [ver[p]], WAIT])

        def ask(m):
            nonlocal nid
            nid += 1
            script.append(["ask", nid, p, m, r.below(1 << 30)])
            return nid
        if k == "look":
            for _ in range(1 + r.below(4)):
                ask(r.pick(["hover", "definition", "references", "documentSymbol", "semanticTokens/full", "documentLink", "inlayHint", "definition", "hover"]))
            script.append(WAIT)
        elif k == "type":
            step(["type", p, r.below(1 << 30)])
        elif k == "newline":
            step(["newline", p, r.below(1 << 30)])
            x = ask("onTypeFormatting")
            script.append(WAIT)
            step(["apply", p, x, 0])
        else:
            x = ask({"fix": "codeAction", "format": "formatting", "complete": "completion"}[k])
            script.append(WAIT)
            if r.chance(85):
                step(["apply", p, x, r.below(100)])
                if k == "format":
                    y = script[-3]
                    nid += 1
                    script.extend([["ask", nid, p, "formatting", next(o[4] for o in script if o[0] == "ask" and o[1] == x)], WAIT])
    case["script"] = script
    return case


def make():
    return make_session("E07", judge_e07, e07_case, {"quick": 10000, "thorough": 100000},
                        "seeded editing sessions in which a UTF-16 editor asks at keys, values and arbitrary positions, applies what it is offered and goes on with the result; every range and every resulting document compared with the real parser's tree and a model of the schema; distinct = distinct order of observable events")
