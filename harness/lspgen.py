"""Seeded workspaces, documents and editing histories for the language server."""
from common import *

FIELDS = ["name", "host", "port", "server", "mode", "tls", "nested", "größe", "数据", "limits", "retries", "paths", "env",
          "emoji🎉", "key-1", "very_long_field_name", "x", "timeout", "label", "users", "root_dir", "a.b", "two words", "ünï"]
NAMES = ["alpha", "beta", "gamma", "größer", "日本", "🎉x", "d-1"]
STRINGS = ["localhost", '"quoted text"', '"with \\"escape\\" and \\n"', 'r#"raw "text""#', "/usr/bin/x", "naïve", '"日本語 🎉"',
           '"a b"', '"\\u{1F600}"', "plain", '"🎉🎉"', '"ß"']
COMMENTS = ["// plain comment", "// ünïcode 🎉 comment", "//", "// 数据 数据"]
BREAKS = ["a {", "a (1 2", 'a "unterminated', "}", "dup 1\ndup 2", "a {\n  b 1", ")", "a {b 1 c 2\n d 3}", "@ @ @", "x <<EOF\nno end",
          "a b c", 'k "bad \\q escape"', "a.b 1\na 2", "/// dangling", "{", "@1bad 2", "🎉 🎉 🎉"]


def quoted(k):
    return k if k.replace("_", "").replace("-", "").isalnum() or all(ord(c) > 127 or c.isalnum() or c in "-_" for c in k) else f'"{k}"'


# ------------------------------------------------------------------------------------- schemas
def gen_type(r, depth, names):
    k = r.weighted([("string", 5), ("int", 4), ("bool", 2), ("any", 1), ("seq", 2), ("map", 1), ("object", 3 if depth > 0 else 0),
                    ("enum", 2), ("ref", 2 if names else 0)])
    if k == "seq":
        return ["seq", gen_type(r, 0, names)]
    if k == "map":
        return ["map", gen_type(r, depth - 1 if depth > 0 else 0, names)]
    if k == "object":
        return ["object", gen_fields(r, depth - 1, names, 1 + r.below(4))]
    if k == "enum":
        vs = r.sample(["fast", "slow", "auto", "custom", "größe"], 1 + r.below(3))
        return ["enum", [[v, ["object", gen_fields(r, 0, names, 1 + r.below(2))] if depth > 0 and r.chance(35) else r.pick([["unit"], ["unit"], ["string"]])]
                         for v in vs]]
    if k == "ref":
        return ["ref", r.pick(names)]
    return [k]


def gen_fields(r, depth, names, n):
    out = []
    for f in r.sample(FIELDS, n):
        t = gen_type(r, depth, names)
        w = r.weighted([("req", 5), ("opt", 4), ("default", 2 if t[0] in ("string", "int", "bool") else 0)])
        out.append([f, w, t, r.pick(["", "", "", "Doc of " + f, "Größe 🎉 of it"])])
    return out


def type_text(t, ind):
    k = t[0]
    if k == "seq":
        return f"@seq({type_text(t[1], ind)})"
    if k == "map":
        return f"@map(@string {type_text(t[1], ind)})"
    if k == "object":
        return "@object{\n" + fields_text(t[1], ind + "  ") + ind + "}"
    if k == "enum":
        return "@enum{\n" + "".join(f"{ind}  {v} {'@unit' if p[0] == 'unit' else type_text(p, ind + '  ')}\n" for v, p in t[1]) + ind + "}"
    if k == "ref":
        return "@" + t[1]
    return {"string": "@string", "int": "@int", "bool": "@bool", "any": "@any"}[k]


DEFAULTS = {"string": '"dflt"', "int": "7", "bool": "true"}


def fields_text(fs, ind):
    s = ""
    for f, w, t, d in fs:
        if d:
            s += f"{ind}/// {d}\n"
        x = type_text(t, ind)
        if w == "opt":
            x = f"@optional({x})"
        elif w == "default":
            x = f"@default({DEFAULTS[t[0]]} {x})"
        s += f"{ind}{quoted(f)} {x}\n"
    return s


def schema_text(sc):
    s = "meta {\n  id " + sc["id"] + "\n"
    if sc.get("version"):
        s += "  version " + sc["version"] + "\n"
    if sc.get("description"):
        s += '  description "' + sc["description"] + '"\n'
    if sc.get("launch"):
        s += "  lsp {launch (" + " ".join(quote(a) for a in sc["launch"]) + ")}\n"
    s += "}\nschema {\n  @ @object{\n" + fields_text(sc["fields"], "    ") + "  }\n"
    for n, t in sc.get("types", {}).items():
        s += f"  {n} {type_text(t, '  ')}\n"
    return s + "}\n" + sc.get("tail", "")


def quote(s):
    if s and all(c.isalnum() or c in "-_./" or ord(c) > 127 for c in s) and not s.startswith(("/", ".", "<")):
        return s
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


def gen_schema(r, n, launch=None):
    names = r.pick([[], ["Aux"], ["Aux", "Other"]])
    types = {}
    for i, x in enumerate(names):
        types[x] = r.pick([["object", gen_fields(r, 0, names[:i] if r.chance(90) else names, 1 + r.below(3))], ["string"], gen_type(r, 1, names[:i])])
    return {"id": f"sch{n}", "version": r.pick(["1.0.0", "", "2.1.0-größe"]), "description": r.pick(["", "A schema", "Schéma 🎉"]),
            "launch": launch, "fields": gen_fields(r, 2, names, 2 + r.below(6)), "types": types, "tail": r.pick(["", "// end 🎉\n"])}


# ----------------------------------------------------------------------------------- documents
def gen_value(r, t, types, depth, wrong=False):
    k = t[0]
    if wrong:
        return r.pick(["(1 2)", "{x 1}", "notanumber", "@nope", "@", '"🎉"'])
    if k == "ref":
        if depth > 4:
            return "@"
        return gen_value(r, types.get(t[1], ["string"]), types, depth + 1)
    if k == "int":
        return str(r.below(70000) - 5)
    if k == "bool":
        return r.pick(["true", "false"])
    if k == "seq":
        sep = r.pick([" ", " ", "\n  "])
        return "(" + sep.join(gen_value(r, t[1], types, depth + 1) for _ in range(r.below(4))) + ")"
    if k == "map":
        return "{" + ", ".join(f"{n} {gen_value(r, t[1], types, depth + 1)}" for n in r.sample(NAMES, r.below(3))) + "}"
    if k == "object":
        return gen_object(r, t[1], types, depth + 1)
    if k == "enum":
        v, p = r.pick(t[1])
        if p[0] == "unit":
            return "@" + v
        if p[0] == "object":
            return f"@{v}" + gen_object(r, p[1], types, depth + 1)
        return f'@{v}"txt"'
    return r.pick(STRINGS)


def misspell(r, f):
    if len(f) < 3:
        return f + "q"
    i = 1 + r.below(len(f) - 1)
    return r.pick([f[:i] + f[i + 1:], f[:i] + "x" + f[i:], f + "s"])


def gen_entries(r, fields, types, depth, faulty=30):
    es = []
    fs = list(fields)
    if r.chance(60):
        r.shuffle(fs)
    for f, w, t, _ in fs:
        if r.chance(25 if w == "req" else 55):
            continue
        key = f
        wrong = False
        if r.chance(faulty):
            x = r.below(3)
            if x == 0:
                key = misspell(r, f)
            elif x == 1:
                wrong = True
        es.append((quoted(key), gen_value(r, t, types, depth, wrong)))
    if r.chance(faulty // 2):
        es.append((r.pick(["unknown_key", "zzz", "🎉k"]), r.pick(STRINGS)))
    seen, out = set(), []
    for k, v in es:
        if k not in seen:
            seen.add(k)
            out.append((k, v))
    return out


def gen_object(r, fields, types, depth):
    es = gen_entries(r, fields, types, depth, 12)
    if r.chance(40) and all("\n" not in v for _, v in es):
        return "{" + ", ".join(f"{k} {v}" for k, v in es) + "}"
    ind = "  " * depth
    s = "{\n"
    for k, v in es:
        if r.chance(15):
            s += f"{ind}  {r.pick(COMMENTS)}\n"
        s += f"{ind}  {k} {v}" + (" // tail" if r.chance(8) and "<<" not in v else "") + "\n"
    return s + ind + "}"


def decl(r, sc):
    if "cli" in sc:
        return r.pick(["@schema {id %s, cli %s}", "@schema {\n  id %s\n  cli %s\n}"]) % (sc["id"], sc["cli"])
    return "@schema " + sc["file"]


def gen_doc(r, sc, broken=12, faulty=30):
    """A document for a schema (or for none)."""
    lines = []
    if r.chance(20):
        lines.append(r.pick(COMMENTS))
    if sc:
        lines.append(decl(r, sc))
        if r.chance(40):
            lines.append("")
        es = gen_entries(r, sc["fields"], sc["types"], 0, faulty)
    else:
        if r.chance(25):
            lines.append("@schema @")
        es = [(quoted(k), gen_value(r, gen_type(r, 2, []), {}, 0)) for k in r.sample(FIELDS, r.below(6))]
    if r.chance(5):
        # A long one.
        some = [f"extra{k}" for k in range(r.pick([12, 20, 40, 90]))]
        es = es[:len(es) // 2] + [(k, r.pick(["1", "true", "{a 1, b {c 2}}", "(1 2 3)", '"🎉 x"', "@"])) for k in some] + es[len(es) // 2:]
    for k, v in es:
        if r.chance(20):
            lines.append(r.pick(COMMENTS))
        if r.chance(12):
            lines.append("/// doc of " + k)
        if r.chance(10):
            lines.append("")
        ind = r.pick(["", "", "", "", "  ", "\t"])
        if r.chance(6):
            v = f"<<TXT\n  some text\n  größe 🎉\nTXT"
            ind = ""
        lines.append(f"{ind}{k} {v}" + (" // tail ü" if r.chance(8) and "<<" not in v else ""))
    if r.chance(broken):
        b = r.pick(BREAKS)
        at = r.below(len(lines) + 1)
        lines.insert(at, b)
    if r.chance(6) and not any("<<" in x for x in lines) and len(lines) < 6 and all("\n" not in x and "//" not in x for x in lines):
        text = ", ".join(x.strip() for x in lines if x.strip())
        return text + r.pick(["", "\n"])
    text = "\n".join(lines) + r.pick(["\n", "\n", "\n", "", "\n\n\n"])
    if r.chance(8):
        text = text.replace("\n", "\r\n")
    return text


TYPED = list("abcxyz019 \n{}()\"@.,>/🎉üß数\t") + ["\n", " ", "name ", "// c\n", "{}", "@schema s0.styx\n"]


def mutate(r, text, sc, others):
    """The next state of a document while somebody edits it."""
    k = r.weighted([("type", 8), ("del", 4), ("new", 3), ("break", 2), ("fix", 2), ("line", 3), ("swap", 1), ("empty", 1), ("same", 1), ("schema", 1)])
    if k == "type":
        p = r.below(len(text) + 1)
        return text[:p] + "".join(r.pick(TYPED) for _ in range(1 + r.below(3))) + text[p:]
    if k == "del" and text:
        p = r.below(len(text))
        return text[:p] + text[p + 1 + r.below(6):]
    if k == "break":
        p = r.below(len(text) + 1)
        return text[:p] + "\n" + r.pick(BREAKS) + "\n" + text[p:]
    if k == "line":
        ls = text.split("\n")
        p = r.below(len(ls))
        if r.chance(50):
            ls.pop(p)
        else:
            ls.insert(p, r.pick(["zz 1", "", "  nested {a 1}", "// more ü", "name 🎉"]))
        return "\n".join(ls)
    if k == "swap":
        ls = text.split("\n")
        a, b = r.below(len(ls)), r.below(len(ls))
        ls[a], ls[b] = ls[b], ls[a]
        return "\n".join(ls)
    if k == "empty":
        return ""
    if k == "same":
        return text
    if k == "schema" and others:
        return gen_doc(r, r.pick(others))
    return gen_doc(r, sc, broken=5)


# ---------------------------------------------------------------------------------- workspaces
def embed_bytes(schemas):
    from clicases import embed_blob
    return b"\x7fELFjunk" + b"".join(embed_blob(s) + b"\0\0pad" for s in schemas)


def gen_workspace(r, nschemas=None, ext=60, embedded=25):
    """-> {"files": {path: text | {"hex":..., "mode":...}}, "schemas": [...], "docs": [[uri path, schema index|None]]}"""
    n = nschemas or 1 + r.below(3)
    files, schemas = {}, []
    for i in range(n):
        launch = [f"prog{i}"] + [r.pick(["--lsp", "serve", "größe x", "-v", "a b"]) for _ in range(r.below(3))] if r.chance(ext) else None
        sc = gen_schema(r, i, launch)
        if r.chance(embedded):
            sc["cli"] = f"tool{i}"
            files[f"bin/tool{i}"] = {"hex": embed_bytes([schema_text(sc)]).hex(), "mode": 0o755}
        else:
            sc["file"] = f"s{i}.styx"
            files[f"w/s{i}.styx"] = schema_text(sc)
        schemas.append(sc)
    docs = []
    for i in range(1 + r.below(3)):
        s = r.below(n) if r.chance(88) else None
        name = r.pick([f"doc{i}.styx", f"d{i} with space.styx", f"größe{i}.styx", f"sub/doc{i}.styx", f".config/dodeca{i}.styx"])
        if name.startswith("sub/") and s is not None and "file" in schemas[s]:
            name = f"doc{i}.styx"
        if s is None and r.chance(40):
            name = r.pick([".config/dodeca.styx", ".config/dibs.styx"])
        if any(d[0] == "w/" + name for d in docs):
            name = f"doc{i}.styx"
        docs.append(["w/" + name, s])
    if r.chance(45):
        for i, sc in enumerate(schemas):
            if "file" in sc and r.chance(70):
                docs.append([f"w/s{i}.styx", "schema"])
                break
    files["w/.keep"] = ""
    return {"files": files, "schemas": schemas, "docs": docs}


def uri_of(path):
    from urllib.parse import quote as q
    return "file://$ROOT/" + q(path)


def config_text(allowed):
    if not allowed:
        return "allowed_extensions ()\n"
    return "allowed_extensions (" + " ".join(quote(a) for a in allowed) + ")\n"


def pos_near(r, text):
    """A protocol position, usually inside the text."""
    from lsp import lines_of, u16
    k = r.below(20)
    ls = lines_of(text)
    if k == 0:
        return {"line": r.pick([len(ls), len(ls) + 5, 4294967295, 1000000]), "character": r.below(9)}
    l = r.below(len(ls))
    s = ls[l][0]
    if k == 1:
        return {"line": l, "character": r.pick([u16(s) + 1, u16(s) + 100, 4294967295])}
    if r.chance(25):
        return {"line": l, "character": u16(s)}
    i = r.below(len(s) + 1)
    c = u16(s[:i])
    if r.chance(3):
        c += 1
    return {"line": l, "character": c}


METHODS = [("hover", 4), ("completion", 4), ("documentSymbol", 3), ("definition", 4), ("references", 3), ("formatting", 3),
           ("onTypeFormatting", 2), ("semanticTokens/full", 2), ("documentLink", 2), ("inlayHint", 3), ("codeAction", 3)]
# These only look at the document they are about.
SINGLE = {"hover", "completion", "documentSymbol", "formatting", "onTypeFormatting", "semanticTokens/full", "documentLink", "inlayHint"}
# These ask the extension.
EXTENDED = {"hover", "completion", "definition", "inlayHint", "codeAction"}


def gen_params(r, m, uri, text):
    p = {"textDocument": {"uri": uri}}
    opt = {"tabSize": r.pick([2, 4, 1, 8]), "insertSpaces": r.chance(80)}
    if m in ("hover", "completion", "definition", "references", "onTypeFormatting"):
        p["position"] = pos_near(r, text)
    if m == "references":
        p["context"] = {"includeDeclaration": r.chance(50)}
    if m == "formatting":
        p["options"] = opt
    if m == "onTypeFormatting":
        p["options"] = opt
        p["ch"] = "\n"
    if m in ("inlayHint", "codeAction"):
        a, b = pos_near(r, text), pos_near(r, text)
        if (a["line"], a["character"]) > (b["line"], b["character"]) and r.chance(90):
            a, b = b, a
        p["range"] = {"start": a, "end": b}
    if m == "codeAction":
        p["context"] = {"diagnostics": []}
    return p
