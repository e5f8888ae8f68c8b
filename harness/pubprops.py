"""D08: publish and diff against a simulated registry."""
import io, tarfile, gzip
from cliprops import *

TOKEN = "tok-SECRET-42"
NAME = "demo-schema"


def schema(meta, fields, extra=""):
    return f"meta {{\n  id x\n  version 1.0.0\n{meta}}}\nschema {{\n  @ @object{{\n" + "".join(f"    {k} {v}\n" for k, v in fields) + f"  }}\n{extra}}}\n"


def pair(r):
    """A published schema, the local one, and how they differ by construction."""
    meta = f"  crate {NAME}\n"
    fields = [(f"f{k}", r.pick(["@string", "@int", "@optional(@string)", "@default(1 @int)"])) for k in range(1 + r.below(5))]
    enum = [f"v{k}" for k in range(1 + r.below(3))]
    def render(fs, en, kind="@object"):
        return schema(meta, fs, f"  Mode @enum{{\n" + "".join(f"    {x} @unit\n" for x in en) + f"  }}\n  Extra {kind}{{\n    a @string\n  }}\n")
    old = render(fields, enum)
    k = r.pick(["same", "comment", "additive-field", "additive-variant", "breaking-remove", "breaking-required", "breaking-variant",
                "breaking-tag", "both"])
    if k == "same":
        return old, old, "same", 0
    if k == "comment":
        return old, "// a comment\n" + old, "same", 1
    if k == "additive-field":
        return old, render(fields + [("added", "@optional(@int)")], enum), "additive", 1
    if k == "additive-variant":
        return old, render(fields, enum + ["more"]), "additive", 1
    if k == "breaking-remove":
        return render(fields + [("gone", "@string")], enum), old, "breaking", 1
    if k == "breaking-required":
        return old, render(fields + [("needed", "@string")], enum), "breaking", 1
    if k == "breaking-variant":
        return render(fields, enum + ["gone"]), old, "breaking", 1
    if k == "breaking-tag":
        return old, render(fields, enum, "@map").replace("Extra @map{\n    a @string\n  }", "Extra @map(@string @int)"), "breaking", 1
    return render(fields + [("gone", "@string")], enum), render(fields, enum + ["more"]), "breaking", 1


def bump(v, cls):
    a, b, c = map(int, v.split("."))
    if cls == "breaking":
        return f"0.{b + 1}.0" if a == 0 else f"{a + 1}.0.0"
    return f"{a}.{b + 1}.0"


def archive(version, files):
    b = io.BytesIO()
    with tarfile.open(fileobj=b, mode="w") as t:
        for n, data in files:
            ti = tarfile.TarInfo(n)
            ti.size = len(data)
            t.addfile(ti, io.BytesIO(data))
    return gzip.compress(b.getvalue(), mtime=0)


def b2s(b):
    return b.decode("utf-8", "surrogateescape")


def scenario(r):
    old, new, cls, _ = pair(r)
    cmd = r.weighted([("publish", 7), ("diff", 3)])
    version = r.pick(["0.1.0", "0.3.7", "1.0.0", "2.11.4", "10.0.9"])
    faulty = r.pick(["none", "none", "lookup", "lookup", "download", "download", "cargo", "tools", "local"])
    lookup = ["ok", "200", f'{{"crate":{{"id":"{NAME}","max_version":"{version}","newest_version":"9.9.9"}},"versions":[{{"num":"9.9.9"}}]}}']
    found = "version"
    if faulty == "none" and r.chance(30):
        lookup, found = ["ok", "404", '{"errors":[{"detail":"crate `x` does not exist"}]}'], "absent"
    if faulty == "lookup":
        found = "failed"
        k = r.below(12)
        if k < 2:
            lookup = ["ok", r.pick(["500", "502", "503", "429", "403", "401", "410", "400"]), r.pick(["oops", "", '{"errors":[{"detail":"does not exist"}]}', lookup[2]])]
        elif k < 5:
            lookup = ["exit", r.pick(["6", "7", "28", "35", "56", "60", "1"]), ""]
        elif k < 6:
            lookup = ["trunc", str(r.below(len(lookup[2]))), lookup[2]]
        elif k < 7:
            lookup = ["kill", str(r.pick([0, 20, len(lookup[2])])), lookup[2]]
        elif k < 8:
            lookup = ["ok", "200", lookup[2][:r.below(len(lookup[2]))]]
        elif k < 9:
            lookup = ["ok", "200", r.pick(["", "<html>portal</html>", "null", "[]", '{"crate":{}}', '{"crate":{"max_version":null}}', '{"crate":{"max_version":3}}', '{}',
                                           '{"errors":[{"detail":"crate does not exist"}]}'])]
        elif k < 10:
            lookup = ["stall", "", ""]
        elif k < 11:
            v = r.pick(["1.2", "x", "", "1.2.x", "1.0.0-beta.1", "1.0.0+b", "18446744073709551616.0.0", "99999999999999999999.1.1", "../1.0.0", "1.0.0/.."])
            lookup = ["ok", "200", f'{{"crate":{{"max_version":{json.dumps(v)}}}}}']
            version = v
            found = "odd"
        else:
            lookup = ["nocurl", "", ""]
    pad = bytes(r.below(256) for _ in range(r.pick([0, 4000])))
    files = [(f"{NAME}-{version}/Cargo.toml", b"[package]\n"), (f"{NAME}-{version}/schema.styx", old.encode()), (f"{NAME}-{version}/z.bin", pad)]
    if r.chance(30):
        files = files[1:] + files[:1]
    arch = archive(version, files)
    download = ["ok", "200", b2s(arch)]
    got = "complete"
    if faulty == "download":
        got = "failed"
        k = r.below(11)
        if k < 1:
            download = ["ok", r.pick(["404", "500", "403"]), "gone"]
        elif k < 2:
            download = ["exit", r.pick(["6", "7", "28", "56"]), ""]
        elif k < 4:
            # the connection breaks after any number of bytes
            download = ["trunc", str(r.pick([0, len(arch) // 2, len(arch) - 8, len(arch) - 1, len(arch), r.below(len(arch))])), b2s(arch)]
        elif k < 5:
            download = ["kill", str(r.pick([0, len(arch) // 2, len(arch) - 1, len(arch)])), b2s(arch)]
        elif k < 6:
            download = ["ok", "200", b2s(arch[:r.pick([0, 10, len(arch) // 2, len(arch) - 9])])]
        elif k < 7:
            x = bytearray(arch)
            x[-5] ^= 0x40  # checksum
            download = ["ok", "200", b2s(bytes(x))]
        elif k < 8:
            other = [f for f in files if "schema.styx" not in f[0]]
            download = ["ok", "200", b2s(archive(version, r.pick([other, [("other-1.0.0/schema.styx", old.encode())], []])))]
        elif k < 9:
            bad = r.pick([old[:len(old) // 2] + "\n{", "a {", "}\n"])
            download = ["ok", "200", b2s(archive(version, [(f"{NAME}-{version}/schema.styx", bad.encode())]))]
        elif k < 10:
            download = ["stall", "", ""]
        else:
            download = ["ok", "200", r.pick(["<html>not found</html>", "PK\x03\x04", ""])]
    cargo = None
    missing = []
    tools = {}
    if faulty == "cargo":
        cargo = r.pick(["101", "1", "kill", "missing"])
    if faulty == "tools":
        k = r.below(5)
        if k == 0:
            missing = ["tar"]
        elif k == 1:
            missing = ["gzip"]
        elif k == 2:
            tools["tar"] = r.pick(["1", "2", "kill"])
        elif k == 3:
            tools["gzip"] = r.pick(["1", "kill"])
        else:
            missing = ["curl"]
            found = "failed"
        got = "failed"
    if lookup[0] == "nocurl":
        missing = ["curl"]
        lookup = ["exit", "6", ""]
        got = "failed"
    local = "good"
    token = True
    src = new
    if faulty == "local":
        local = r.pick(["missing", "broken", "nocrate", "notoken", "notutf8"])
        if local == "broken":
            src = new + "}"
        elif local == "nocrate" and cmd == "publish":
            src = new.replace(f"  crate {NAME}\n", "")
        elif local == "notoken" and cmd == "publish":
            token = False
        elif local == "notutf8":
            src = "\udcff" + new
        elif local != "missing":
            local = "good"
    answer = r.pick(["flag", "flag", "flag", "y\n", "Y\n", " y \n", "y", "n\n", "", "\n", "yes\n", "no\n", "N\n", "ny\n", "yn\n", "Y\nn\n", "n\ny\n"])
    yes = answer == "flag" or answer.split("\n")[0].strip() in ("y", "Y")
    if cmd == "publish":
        args = ["publish", "s.styx"] + ([r.pick(["-y", "--yes"])] if answer == "flag" else [])
        stdin = "" if answer == "flag" else answer
    else:
        args = ["diff", "s.styx", "--crate", NAME]
        stdin = ""
        if r.chance(25):
            args += ["--baseline", version]
            found = "version" if faulty != "lookup" or version not in ("", ) else found
            if faulty == "lookup":
                return scenario(r)
    fs = [["f", "bystander.styx", "keep\n", 0o644]]
    if local != "missing":
        fs.append(["f", "s.styx", src, 0o644])
    return {"files": fs, "args": args, "stdin": stdin, "kind": "d08/" + cmd + "/" + faulty, "cmd": cmd, "lookup": lookup, "download": download,
            "cargo": cargo, "missing": missing, "tools": tools, "found": found, "got": got, "local": local, "token": token, "yes": yes,
            "cls": cls, "version": version, "targets": [], "expect": None, "schema": src, "old": old, "faulty": faulty}


def expected(sc):
    """-> (number of publications, version, exit status is 0 | None if open)"""
    if sc["local"] in ("missing", "broken", "nocrate", "notutf8") or not sc["token"]:
        return 0, None, False
    lookup_needed = "--baseline" not in sc["args"]
    if lookup_needed and sc["found"] == "failed":
        return 0, None, False
    if lookup_needed and sc["found"] == "odd":  # comparing is still possible, computing the next version is not
        return 0, None, None if sc["cmd"] == "diff" else False
    if sc["found"] == "absent":
        if sc["cmd"] == "diff":
            return 0, None, False
        v = "0.1.0"
    else:
        if sc["got"] != "complete":
            return 0, None, False
        if sc["cmd"] == "diff":
            return 0, None, True
        if sc["cls"] == "same":
            return 0, None, None
        v = bump(sc["version"], sc["cls"])
    if not sc["yes"]:
        return 0, None, None
    if sc["cargo"] == "missing":
        return 0, None, False
    return 1, v, sc["cargo"] is None


def setup(sc, root, fresh=True):
    if fresh:
        build_tree(root, sc["files"])
        os.makedirs(root + "/tmp", exist_ok=True)
    else:
        if os.path.exists(root + "/s.styx"):
            os.unlink(root + "/s.styx")
        for f in sc["files"]:
            with open(os.path.join(root, f[1]), "wb") as h:
                h.write(f[2].encode("utf-8", "surrogateescape"))
    b = root + ".side/bin"
    shutil.rmtree(b, ignore_errors=True)
    os.makedirs(b)
    for n in ("curl", "cargo", "tar", "gzip", "sh", "bash", "cat", "rm", "mkdir", "env"):
        if n not in sc["missing"] and not (n == "cargo" and sc["cargo"] == "missing"):
            os.symlink(HELPER if n in ("curl", "cargo", "tar", "gzip") else "/bin/" + n, f"{b}/{n}")
    def body(name, s):
        with open(f"{b}/{name}", "wb") as f:
            f.write(s.encode("utf-8", "surrogateescape"))
    body("lookup.body", sc["lookup"][2])
    body("download.body", sc["download"][2])
    def rule(sub, x, bodyname):
        return "\t".join(["url", sub, x[0]] + ([x[1], bodyname] if x[0] in ("ok", "trunc", "kill") else [x[1]] if x[0] == "exit" else [])) + "\n"
    tok = f"token\t{TOKEN}\n"
    body("curl.conf", tok + rule("/download", sc["download"], "download.body") + rule("/api/v1/crates/", sc["lookup"], "lookup.body"))
    body("cargo.conf", tok + (f"result\t{sc['cargo']}\n" if sc["cargo"] not in (None, "missing") else ""))
    for t in ("tar", "gzip"):
        body(t + ".conf", tok + (f"result\t{sc['tools'][t]}\n" if t in sc["tools"] else ""))
    return b


def execute8(sc, root, variant, fresh=True):
    b = setup(sc, root, fresh)
    before = tree_of(root)
    p = Plan(root, denyspawn=0)
    p.d.update(variant.get("env", {}))
    p.faults = [tuple(f) for f in variant.get("faults", [])]
    p.sticky = [tuple(f) for f in variant.get("sticky", [])]
    env = {"PATH": b}
    if sc["token"]:
        env["STYX_STAGING_TOKEN"] = TOKEN
    res = run(sc["args"], root, p, stdin=sc["stdin"].encode(), env=env, timeout=120)
    res.before = before
    res.after = tree_of(root)
    res.calls = []
    res.hung = False
    try:
        for line in open(b + "/log", errors="surrogateescape"):
            w = line.rstrip("\n").split("\t")
            if w[0] == "call":
                res.calls.append((w[1], w[2].split("\x1f"), w[3], w[4]))
            elif w[0] == "hung":
                res.hung = True
    except OSError:
        pass
    res.published = []
    n = 0
    while os.path.isdir(f"{b}/published.{n}"):
        res.published.append(tree_of(f"{b}/published.{n}"))
        n += 1
    return res


def judge(sc, res, root, variant, quiet):
    """quiet: no fault besides the scenario's own."""
    pubs, version, ok = expected(sc)
    what = f"styx {' '.join(sc['args'])} (local {sc['local']}, lookup {clip(str(sc['lookup']), 200)}, download {sc['download'][:2]}, cargo {sc['cargo']}, tools {sc['tools']}, " \
           f"missing {sc['missing']}, answer {sc['stdin']!r}, differences {sc['cls']}) under {json.dumps(variant)}\n" \
           f"faults that fired: {res.faults}\nexit {res.code}, stderr {clip(describe(res.err, root), 600)!r}\ncalls {[(c[0], ' '.join(c[1])) for c in res.calls]}"
    v = []
    crash = res.code == CRASH_EXIT
    if res.timeout or res.hung:
        return [("hang", "a stalled download is waited for without limit\n" + what)]
    if not crash and res.code not in (0, 1, 2, 3):
        v.append(("crashed", what))
    n = len(res.published)
    if n > max(pubs, 0):
        v.append(("published" if n == 1 else "published-twice", f"published {n} times, at most {pubs} justified\n" + what))
    elif n:
        snap = res.published[0]
        toml = snap.get("Cargo.toml", ("f", b"", 0))[1].decode("utf-8", "replace")
        if f'version = "{version}"' not in toml or f'name = "{NAME}"' not in toml:
            v.append(("wrong-version", f"published {clip(toml)!r}, expected {NAME} {version}\n" + what))
        s = snap.get("schema.styx")
        if s is None or s[1] != sc["schema"].encode("utf-8", "surrogateescape"):
            v.append(("wrong-content", f"published schema.styx {describe_entry(s)}\n" + what))
        want = {"Cargo.toml", "README.md", "schema.styx", "src", "src/lib.rs", ".cargo", ".cargo/config.toml"}
        if set(snap) - want:
            v.append(("wrong-content", f"published also {sorted(set(snap) - want)}\n" + what))
        call = next(c for c in res.calls if c[0] == "cargo")
        if call[1][:1] != ["publish"] or "--dry-run" in call[1]:
            v.append(("wrong-content", what))
    if quiet:
        if n != pubs:
            v.append(("not-published", f"published {n} times, expected {pubs}\n" + what))
        if ok is True and res.code != 0:
            v.append(("false-failure", what))
        if ok is True and sc["cmd"] == "diff":
            e = res.err + res.out
            exp = {"breaking": b"major", "additive": b"minor", "same": b"No changes"}[sc["cls"]]
            if exp not in e:
                v.append(("wrong-comparison", f"expected {exp!r}\n" + what))
    if not crash:
        if ok is False and res.code == 0:
            v.append(("false-success", what))
        if res.code == 0 and sc["cmd"] == "publish" and pubs == 1 and n == 0:
            v.append(("false-success", "nothing was published\n" + what))
        if res.code and not res.err:
            v.append(("silent-failure", what))
    removal = {n for n, _, op, _ in res.steps if op in ("unlink", "rmdir", "opendir", "readdir")} | {n for n, c, op, _ in res.steps if c in ("open", "stat")}
    faulted = {f[0] for f in res.faults}
    for k in sorted(set(res.before) | set(res.after)):
        a, b = res.before.get(k), res.after.get(k)
        if a == b:
            continue
        if a is not None:
            v.append(("bystander", f"{k}: {describe_entry(b)}, was {describe_entry(a)}\n" + what))
        elif not crash and not (faulted & removal) and not variant.get("sticky"):
            v.append(("stray", f"{k} is left behind: {describe_entry(b)}\n" + what))
            break
    for c in res.calls:
        if c[0] != "cargo" and (c[2] or c[3] == "1"):
            v.append(("token-leak", f"{c[0]} sees the token (variables {c[2]}, arguments {c[3]})\n" + what))
        if c[0] == "cargo" and c[3] == "1":
            v.append(("token-leak", f"the token is among cargo's arguments\n" + what))
    for t in [res.after] + res.published:
        for k, e in t.items():
            if e[0] == "f" and TOKEN.encode() in e[1]:
                v.append(("token-leak", f"the token is in {k}\n" + what))
    if TOKEN.encode() in res.out + res.err:
        v.append(("token-leak", "the token is printed\n" + what))
    return v


def evaluate(sc, va, root, base=None, out=None):
    if va is None:
        return judge(sc, execute8(sc, root, {}), root, {}, True)
    v = []
    if "first" in va:
        # an earlier run, by a process with the same id, that crashed; the files and the registry were different then
        f = execute8(va["first"], root, {"faults": va["faults"]})
        if out is not None:
            note(out, f, va)
        v += judge(va["first"], f, root, va, False)
        res = execute8(sc, root, {}, False)
        if out is not None:
            note(out, res, {})
        return v + judge(sc, res, root, {"after a crashed run": va["faults"]}, True)
    res = execute8(sc, root, va)
    if out is not None:
        note(out, res, va)
    return judge(sc, res, root, va, False if classify(va) != "soft" else True)


def work(i, out):
    r = Rng("D08", SEED, i)
    root = f"{SCRATCH}/D08/{i}"
    sc = scenario(r)
    base = execute8(sc, root, {})
    note(out, base, {})
    out.count("reach:" + sc["kind"])
    for _ in base.published:
        out.count("reach:published")
    if sc["faulty"] != "none":
        out.count("fault:registry or helper: " + sc["faulty"])
    for cls, text in judge(sc, base, root, {}, True):
        out.violation(cls, text, {"scenario": sc, "variant": None, "root": root})
    vs = variants(sc, base, r, 12, ("hard", "soft", "crash"))
    for _ in range(2):
        first = scenario(r)
        b1 = execute8(first, root, {})
        for _ in range(3):
            if b1.steps:
                vs.append({"first": first, "faults": [[r.pick(b1.steps)[0], r.pick(["crash", "crashafter"]), 0]]})
    for va in vs:
        for cls, text in evaluate(sc, va, root, base, out):
            out.violation(cls, text, {"scenario": sc, "variant": va, "root": root})
        if len(out.violations) > 5:
            break
    if i < 4:
        out.samples.append({"args": sc["args"], "kind": sc["kind"], "exit": base.code, "calls": [c[0] for c in base.calls], "expected": str(expected(sc))})
    remove_tree(root)


def recheck(case):
    try:
        return evaluate(case["scenario"], case["variant"], case["root"])
    finally:
        remove_tree(case["root"])


def make():
    return Check("D08", work, recheck, {"quick": 240, "thorough": 8000}, shrink=None,
                 rule="seeded schema pairs, registry and helper outcomes, answers, temporary-directory leftovers; for each a run with only these, then one run per sampled I/O fault, crash or earlier crashed run; distinct = distinct (step sequence, faults fired, exit status)",
                 components={"real": REAL + ["tar, gzip"], "stub": ["libc file, stream, randomness, clock and process calls (simos, preloaded)", "curl, cargo (record calls, play the scenario's outcome)"]},
                 prepare=build_cli,
                 assumptions=["curl's documented exit statuses and --write-out variables", "the registry answers 404 exactly when the crate does not exist"])
