"""D06: embedded schemas in damaged files."""
import struct
from clicases import *


def schema_text(r, k):
    body = "".join(f"    field_{r.below(1000)}_{j} @string\n" for j in range(r.below(12)))
    pad = "".join(f"// {''.join(r.pick('abcdefgh ünïx数') for _ in range(r.below(60)))}\n" for _ in range(r.below(20)))
    if r.chance(20):
        pad += "// " + "x" * r.below(9000) + "\n"
    return f"{pad}meta {{\n  id schema-{k}\n  version 1.{r.below(9)}.0\n}}\nschema {{\n  @ @object{{\n{body}  }}\n}}\n// end-{k}-{r.below(1 << 30)}" + r.pick(["\n", "", "\n\n"])


def elf(section, r):
    text = bytes(r.below(256) for _ in range(r.below(200)))
    names = b"\0.text\0.styx_schemas\0.shstrtab\0"
    off = 64
    t_off = off
    off += len(text)
    s_off = off
    off += len(section)
    n_off = off
    off += len(names)
    sh_off = (off + 7) // 8 * 8
    def sh(name, typ, o, size):
        return struct.pack("<IIQQQQIIQQ", name, typ, 2, 0, o, size, 0, 0, 1, 0)
    hdr = b"\x7fELF\x02\x01\x01" + b"\0" * 9 + struct.pack("<HHIQQQIHHHHHH", 3, 62, 1, 0, 0, sh_off, 0, 64, 0, 0, 64, 4, 3)
    body = hdr + text + section + names
    body += b"\0" * (sh_off - len(body))
    table = sh(0, 0, 0, 0) + sh(1, 1, t_off, len(text)) + sh(7, 1, s_off, len(section)) + sh(21, 3, n_off, len(names))
    return body + table, [(0, 64), (n_off, n_off + len(names)), (sh_off, sh_off + len(table))]


def macho(section, r):
    cmdsize = 72 + 80
    off = 32 + cmdsize
    hdr = struct.pack("<IIIIIIII", 0xFEEDFACF, 0x01000007, 3, 2, 1, cmdsize, 0, 0)
    seg = struct.pack("<II16sQQQQIIII", 0x19, cmdsize, b"__DATA", 0, len(section), off, len(section), 7, 3, 1, 0)
    sect = struct.pack("<16s16sQQIIIIIIII", b"__styx_schemas", b"__DATA", 0, len(section), off, 0, 0, 0, 0, 0, 0, 0)
    return hdr + seg + sect + section, [(0, off)]


def pe(section, r):
    lfanew = 0x80
    opt = 240
    raw = 0x400
    dos = b"MZ" + b"\0" * 58 + struct.pack("<I", lfanew)
    dos += b"\0" * (lfanew - len(dos))
    coff = b"PE\0\0" + struct.pack("<HHIIIHH", 0x8664, 1, 0, 0, 0, opt, 0x22)
    o = struct.pack("<HBBIIIIIQIIHHHHHHIIIIHHQQQQII", 0x20B, 14, 0, 0, 0, 0, 0x1000, 0x1000, 0x140000000, 0x1000, 0x200,
                    6, 0, 0, 0, 6, 0, 0, 0x4000, raw, 0, 3, 0, 0x100000, 0x1000, 0x100000, 0x1000, 0, 16)
    o += b"\0" * (opt - len(o))
    sec = struct.pack("<8sIIIIIIHHI", b".styx", len(section), 0x1000, len(section), raw, 0, 0, 0, 0, 0x40000040)
    head = dos + coff + o + sec
    head += b"\0" * (raw - len(head))
    return head + section, [(0, raw)]


def container(r):
    """-> (bytes, blobs [(schema, bytes)], protected ranges, kind)"""
    n = 1 + r.below(4)
    schemas = [schema_text(r, k) for k in range(n)]
    junk = lambda m: r.pick([b"\0" * r.below(m), bytes(r.below(256) for _ in range(r.below(m))), b"STYX_SCHEMA_V2\0\0" * r.below(3),
                             b"STYX_SCHEMA" * r.below(4), b"STYX_SCHEMAS_V1\0" * r.below(2)])
    kind = r.weighted([("bare", 6), ("v1", 2), ("elf", 4), ("macho", 2), ("pe", 2)])
    if kind == "v1":
        blob = embed_blob(schemas, True)
        return {"data": junk(300) + blob + junk(200), "schemas": schemas, "v1": True, "kind": kind, "index": []}
    parts = []
    for s in schemas:
        parts.append(junk(120))
        parts.append(embed_blob(s))
    parts.append(junk(120))
    sect = b"".join(parts)
    index = []
    if kind == "bare":
        data = sect
    else:
        data, index = {"elf": elf, "macho": macho, "pe": pe}[kind](sect, r)
    return {"data": data, "schemas": schemas, "v1": False, "kind": kind, "index": index}


def damage(r, data, blobs):
    """-> list of damages [kind, pos, len/value]"""
    ds = []
    for _ in range(r.pick([0, 1, 1, 1, 2, 3])):
        k = r.weighted([("flip", 6), ("set", 3), ("zero", 3), ("sector", 2), ("cut", 2), ("dup", 2), ("del", 1), ("len", 5)])
        pos = r.below(len(data))
        if blobs and r.chance(70):
            b = r.pick(blobs)
            at = data.find(b)
            if at >= 0:
                pos = at + (r.below(min(len(b), 64)) if r.chance(60) else r.below(len(b)))
                if k == "len":
                    pos = at + r.pick([16, 20, 56])
        if k == "flip":
            ds.append(["flip", pos, 1 << r.below(8)])
        elif k == "set":
            ds.append(["set", pos, r.pick([0, 255, 127, 128])])
        elif k == "len":
            ds.append(["put", pos, r.pick(["ffffffff", "ffffff7f", "00000080", "00000000", "01000000", "00000040", "ffff0000"])])
        elif k == "zero":
            ds.append(["zero", pos, 1 + r.below(80)])
        elif k == "sector":
            ds.append(["zero", pos // 512 * 512, 512])
        elif k == "cut":
            ds.append(["cut", pos, 0])
        elif k == "dup":
            ds.append(["dup", pos, 1 + r.below(900)])
        else:
            ds.append(["del", pos, 1 + r.below(40)])
    return ds


def apply_damage(data, ds):
    for k, pos, v in ds:
        if pos >= len(data):
            continue
        if k == "flip":
            data = data[:pos] + bytes([data[pos] ^ v]) + data[pos + 1:]
        elif k == "set":
            data = data[:pos] + bytes([v]) + data[pos + 1:]
        elif k == "put":
            b = bytes.fromhex(v)
            data = (data[:pos] + b + data[pos + 4:])[:max(len(data), 0)]
        elif k == "zero":
            n = min(v, len(data) - pos)
            data = data[:pos] + b"\0" * n + data[pos + n:]
        elif k == "cut":
            data = data[:pos]
        elif k == "dup":
            data = data[:pos] + data[pos:pos + v] + data[pos:]
        elif k == "del":
            data = data[:pos] + data[pos + v:]
    return data


def printed(s):
    return (s if s.endswith("\n") else s + "\n").encode()


def evaluate(case, out=None):
    root = case["root"]
    data0 = case["data"].encode("latin1")
    schemas = case["schemas"]
    data = apply_damage(data0, case["damage"])
    build_tree(root, [["f", "bin.dat", "", 0o755]])
    with open(root + "/bin.dat", "wb") as f:
        f.write(data)
    p = Plan(root)
    p.faults = [tuple(f) for f in case.get("faults", [])]
    limit = 400 * 1024 * 1024 + 300 * len(data)
    res = run(["extract", "bin.dat"], root, p, memlimit=limit, timeout=60)
    what = f"styx extract of a {case['kind']} file of {len(data)} bytes with {len(schemas)} schemas, damage {json.dumps(case['damage'])}, faults {res.faults}\n" \
           f"exit {res.code}, stderr {clip(describe(res.err, root))!r}"
    if out is not None:
        note(out, res, {})
        for d in case["damage"]:
            out.count("fault:stored bytes: " + {"put": "length field overwritten", "flip": "bit flipped", "set": "byte overwritten", "zero": "range zeroed",
                                                 "cut": "cut off", "dup": "range duplicated", "del": "range lost"}[d[0]])
        out.state(case["kind"], tuple(sorted(d[0] for d in case["damage"])), res.code, len(schemas), res.out.count(b"// end-"), len(res.faults))
    v = []
    if res.timeout:
        return [("hang", what)]
    if res.code not in (0, 1, 3):
        return [("crashed", what)]
    # returned schemas
    rest = res.out
    got = []
    table = {printed(s): i for i, s in enumerate(schemas)}
    while rest:
        m = [k for k in table if rest.startswith(k)]
        if not m:
            v.append(("altered", f"output is not one of the embedded schemas: {clip(rest)!r}\n" + what))
            break
        k = max(m, key=len)
        got.append(table[k])
        rest = rest[len(k):]
    intact = []
    if case["v1"]:
        full = embed_blob(schemas, True)
        single = [embed_blob([s], True)[18:] for s in schemas]
        at = data.find(full[:18])
        if at >= 0:
            # entries up to the first damaged one
            pos = at + 18
            for i, s in enumerate(single):
                if data[pos:pos + len(s)] != s:
                    break
                intact.append((pos, i))
                pos += len(s)
    else:
        for i, s in enumerate(schemas):
            b = embed_blob(s)
            at = data.find(b)
            while at >= 0:
                intact.append((at, i))
                at = data.find(b, at + 1)
    intact.sort()
    shifted = any(d[0] in ("cut", "dup", "del") for d in case["damage"])
    index_hit = case["index"] and (shifted or any(a < d[1] + (d[2] if d[0] == "zero" else 4) and d[1] < b for d in case["damage"] for a, b in case["index"]))
    io = bool(res.faults)
    if res.code == 0 and not got:
        v.append(("false-success", "exit 0 with nothing extracted\n" + what))
    if not v and not io:
        want = [i for _, i in intact]
        if case["v1"]:
            missing = [i for i in set(want) if i not in got]
        elif index_hit:
            missing = want if want and not got else []
        else:
            missing = [i for i in set(want) if want.count(i) > got.count(i)]
        if missing:
            v.append(("lost", f"intact schemas {sorted(set(missing))} were not extracted (got {got})\n" + what))
        if not case["damage"] and got != list(range(len(schemas))):
            v.append(("order", f"extracted {got} from an undamaged file\n" + what))
        if not shifted and got != sorted(got):
            v.append(("order", f"not in order of position: {got}\n" + what))
        if not got and res.code == 0:
            v.append(("false-success", "nothing found but exit 0\n" + what))
        if got and res.code != 0:
            v.append(("wrong-status", f"schemas extracted but exit {res.code}\n" + what))
    if io and res.code == 0 and not v and not case["damage"] and got != list(range(len(schemas))):
        v.append(("false-success", "exit 0 with an incomplete result after an I/O error\n" + what))
    if res.code != 0 and not res.err:
        v.append(("silent-failure", what))
    return v


def work(i, out):
    r = Rng("D06", SEED, i)
    c = container(r)
    blobs = [embed_blob(s) for s in c["schemas"]] if not c["v1"] else [embed_blob(c["schemas"], True)]
    root = f"{SCRATCH}/D06/{i}"
    out.count("reach:container " + c["kind"])
    for k in range(14):
        case = {"root": root, "data": c["data"].decode("latin1"), "schemas": c["schemas"], "v1": c["v1"], "kind": c["kind"],
                "index": c["index"], "damage": [] if k == 0 else damage(r, c["data"], blobs), "faults": []}
        if k == 1:
            case["damage"] = []
            case["faults"] = [[1 + r.below(3), "err", r.pick([E.EIO, E.EACCES, E.EMFILE, E.ENOMEM])]]
        for cls, text in evaluate(case, out):
            out.violation(cls, text, case)
        if i < 3 and k == 3:
            out.samples.append({"container": c["kind"], "bytes": len(c["data"]), "schemas": len(c["schemas"]), "damage": case["damage"]})
    remove_tree(root)


def recheck(case):
    try:
        return evaluate(case)
    finally:
        remove_tree(case["root"])


def shrink(case):
    for i in range(len(case["damage"])):
        c = copy.deepcopy(case)
        del c["damage"][i]
        yield c


def make():
    return Check("D06", work, recheck, {"quick": 400, "thorough": 12000}, shrink=shrink,
                 rule="seeded files (bare bytes, legacy blobs, ELF, Mach-O, PE) with 1-4 embedded schemas and decoy magic bytes; stored bytes flipped, zeroed, cut, duplicated, lengths overwritten; I/O errors; the real extract command runs under a memory limit of 400 MB + 300 x file size; distinct = (container, damage kinds, exit, schemas found)",
                 components={"real": ["styx extract (executable built from the working tree)"], "stub": ["disk contents", "libc calls (simos)", "embedding side (own writer of the documented format)"]},
                 prepare=build_cli, assumptions=["a file does not shrink while it is mapped"])
