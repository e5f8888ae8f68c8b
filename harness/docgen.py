"""Seeded Styx documents, schemas and damaged variants."""

WORDS = ["name", "host", "port", "server", "enabled", "timeout", "path", "größe", "数据", "key-1", "x", "very_long_key_name",
         "limits", "auth", "retries", "mode", "emoji🎉", "z9"]
SCALARS = ["localhost", "8080", "true", "30s", '"quoted text"', '"with \\"escape\\" and \\n"', "r#\"raw \"text\"\"#", "@",
           "/usr/bin/x", "naïve", '"日本語 🎉"', "10MB", "@some-tag", '"a b"', "0.5", '"\\u{1F600}"']
COMMENTS = ["// plain comment", "// ünïcode 🎉 comment", "//", "/// doc comment"]


def value(r, depth):
    k = r.below(10)
    if depth <= 0 or k < 5:
        return r.pick(SCALARS)
    if k < 7:
        return "(" + " ".join(value(r, 0) for _ in range(r.below(4))) + ")"
    if k < 9:
        n = r.below(4)
        keys = r.sample(WORDS, n)
        sep = r.pick([", ", "\n"])
        if sep == ", ":
            return "{" + ", ".join(f"{k} {value(r, 0)}" for k in keys) + "}"
        return "{\n" + "".join(f"  {k} {value(r, depth - 1)}\n" for k in keys) + "}"
    return f"@tag{{ a {r.pick(SCALARS)} }}" if r.chance(50) else "@t(1 2)"


def document(r, big=False):
    """A well-formed document."""
    n = r.below(8) if not big else 60 + r.below(300)
    out = []
    keys = list(WORDS) if not big else [f"{w}{i}" for i in range(30) for w in WORDS]
    r.shuffle(keys)
    for i in range(min(n, len(keys))):
        if r.chance(25):
            c = r.pick(COMMENTS)
            out.append(c)
        if r.chance(15):
            out.append("")
        key = keys[i]
        indent = r.pick(["", "", "", "  "])
        out.append(f"{indent}{key} {value(r, 2)}")
    nl = "\r\n" if r.chance(8) else "\n"
    text = "\n".join(out)
    text = text.replace("\n", nl)
    k = r.below(10)
    if k < 6 and text:
        text += nl
    elif k == 6:
        text += nl * 3
    return text


BROKEN = ["a {", "a (1 2", 'a "unterminated', "}", "a 1\na 2\n", "a {\n  b 1\n", ")", "a {b 1 c 2\n d 3}", "@ @ @", "x <<EOF\nno end"]


def broken(r):
    d = document(r)
    b = r.pick(BROKEN)
    if r.chance(50):
        return d + ("" if d.endswith("\n") or not d else "\n") + b
    return b


def not_utf8(r):
    d = document(r).encode()
    p = r.below(len(d) + 1)
    return d[:p] + r.pick([b"\xff", b"\xc3", b"\xe2\x82", b"\xed\xa0\x80"]) + d[p:]


SCHEMA = """meta {
  id test-schema
  version 1.0.0
}
schema {
  @ @object{
    name @string
    port @optional(@int)
    mode @optional(@enum{
      fast @unit
      slow @unit
    })
    limits @optional(@object{
      cpu @int
      mem @string
    })
  }
}
"""


def valid_for_schema(r):
    lines = [f"name {r.pick(['web', 'örk', '\"a b\"', 'db'])}"]
    if r.chance(60):
        lines.append(f"port {r.below(65536)}")
    if r.chance(40):
        lines.append("mode " + r.pick(["@fast", "@slow"]))
    if r.chance(40):
        lines.append("limits {cpu %d, mem 1GB}" % r.below(64))
    r.shuffle(lines)
    return "\n".join(lines) + "\n"


def invalid_for_schema(r):
    lines = [r.pick(["nam web", "name web\nport many", "name web\nunknown 1\nothr 2\nmod 3", "port 1", "name web\nlimits {cpu x, mem 1}",
                     "name web\nmode @fst", "name (1 2)"])]
    return "\n".join(lines) + "\n"
