"""Seeded scenarios for the command-line tool, fault variants, and the oracles over one execution."""
import copy
from cli import *
import docgen, disk

# a scenario: {"files": [[kind, rel, content, mode]...], "args": [...], "stdin": str,
#              "expect": exit code of a fault-free run or None, "targets": [rel...], "kind": str}


def file_scenario(r, writing=None):
    files = []
    kind = r.weighted([("valid", 10), ("big", 3), ("broken", 3), ("notutf8", 1), ("missing", 1), ("empty", 1), ("dir", 1)])
    if kind == "valid":
        doc = docgen.document(r)
    elif kind == "big":
        doc = docgen.document(r, True)
    elif kind == "broken":
        doc = docgen.broken(r)
    elif kind == "notutf8":
        doc = docgen.not_utf8(r).decode("utf-8", "surrogateescape")
    else:
        doc = ""
    expect = {"valid": 0, "big": 0, "empty": 0, "broken": 1, "notutf8": 3, "missing": 3, "dir": 3}[kind]
    mode = r.pick([0o644, 0o600, 0o755, 0o640])
    inp = r.pick(["in.styx", "./in.styx", "sub/in.styx", "sub/file with space.styx", "sub/größe.styx"])
    rel = inp[2:] if inp.startswith("./") else inp
    link = None
    if kind == "dir":
        files.append(["d", rel, "", 0])
    elif kind != "missing":
        if r.chance(20):
            files.append(["f", "real/data.txt", doc, mode])
            files.append(["l", rel, ("../" if "/" in rel else "") + "real/data.txt", 0])
            link = "real/data.txt"
        else:
            files.append(["f", rel, doc, mode])
    files.append(["f", "bystander.styx", "keep me\n", 0o644])
    out = r.weighted([("stdout", 3), ("inplace", 6), ("output", 4), ("json", 3), ("jsonstd", 1), ("ostd", 1)]) \
        if writing is None else r.weighted([("inplace", 6), ("output", 4), ("json", 3)])
    stdin = ""
    args = [inp]
    use_stdin = kind not in ("missing", "dir") and out != "inplace" and r.chance(20)
    if use_stdin:
        args = ["-"]
        stdin = doc
    targets = []
    if out == "inplace":
        args.append("--in-place")
        targets = [link or rel]
    elif out in ("output", "json"):
        t = r.pick(["out.styx", "sub/out.styx", "o", "sub/result.json"])
        tk = r.weighted([("existing", 6), ("new", 2), ("link", 2), ("nodir", 1)])
        if tk == "existing":
            files.append(["f", t, r.pick(["old contents\n", "", docgen.document(r), "x" * 9000]), r.pick([0o644, 0o600, 0o755])])
        elif tk == "link":
            files.append(["f", "real/target", "old contents\n", 0o600])
            files.append(["l", t, ("../" if "/" in t else "") + "real/target", 0])
        if "/" in t and tk == "new":
            files.append(["d", "sub", "", 0])
        if tk == "nodir":
            t = "nowhere/out.styx"
            if expect == 0:
                expect = 3
        args += (["-o", t] if out == "output" else ["--json-out", t])
        targets = ["real/target" if tk == "link" else t]
    elif out == "jsonstd":
        args += ["--json-out", "-"]
    elif out == "ostd":
        args += ["-o", "-"]
    if out not in ("json", "jsonstd") and r.chance(25):
        args.append("--compact")
    if kind in ("valid", "broken", "empty") and r.chance(20):
        # validation, by an explicit schema file
        files.append(["f", "schema.styx", docgen.SCHEMA, 0o644])
        if kind == "valid" or kind == "empty":
            good = kind == "valid" and r.chance(50)
            d2 = docgen.valid_for_schema(r) if good else docgen.invalid_for_schema(r)
            if r.chance(40) and not use_stdin:
                ref = "../schema.styx" if "/" in rel else "schema.styx"
                if link:
                    ref = "../schema.styx" if "/" in rel else "schema.styx"
                d2 = f"@schema {ref}\n" + d2
                args += ["--validate"]
            else:
                args += ["--validate", "--schema", "schema.styx"]
            for f in files:
                if f[1] == (link or rel):
                    f[2] = d2
            if use_stdin:
                stdin = d2
            if expect == 0 or "nowhere/out.styx" in args:
                expect = expect if good else 2
        else:
            args += ["--validate", "--schema", "schema.styx"]
    return {"files": files, "args": args, "stdin": stdin, "expect": expect, "targets": targets, "kind": f"{kind}/{out}"}


def sub_scenario(r):
    files = [["f", "bystander.styx", "keep me\n", 0o644]]
    cmd = r.pick(["tokens", "lexemes", "events", "tree", "treesexp", "cst", "extract", "skill", "completions", "cache", "clear",
                  "validate-embedded", "usage"])
    expect = 0
    targets = []
    stdin = ""
    doc = docgen.document(r, r.chance(15))
    bad = r.weighted([("", 12), ("notutf8", 1), ("missing", 1), ("dir", 1), ("broken", 2)])
    if bad == "broken":
        doc = docgen.broken(r)
    if bad == "notutf8":
        doc = docgen.not_utf8(r).decode("utf-8", "surrogateescape")
    if cmd in ("tokens", "lexemes", "events", "tree", "treesexp", "cst"):
        args = {"treesexp": ["tree", "--format", "sexp"]}.get(cmd, [cmd])
        expect = (1 if cmd == "tree" else None) if bad == "broken" else 3 if bad else 0
        if bad in ("missing", "dir"):
            expect = 3
            if bad == "dir":
                files.append(["d", "in.styx", "", 0])
            args = args + ["in.styx"]
        elif r.chance(25):
            args = args + ["-"]
            stdin = doc
        else:
            files.append(["f", "in.styx", doc, 0o644])
            args = args + ["in.styx"]
    elif cmd == "extract":
        args = ["extract", "bin.dat"]
        if bad == "missing":
            expect = 3
        else:
            n = 1 + r.below(3)
            blob = b"".join(embed_blob(docgen.SCHEMA.replace("test-schema", f"id-{k}-{r.below(99)}")) for k in range(n))
            pre = bytes(r.below(256) for _ in range(r.below(300)))
            files.append(["f", "bin.dat", (pre + blob + b"\0" * r.below(50)).decode("utf-8", "surrogateescape"), 0o755])
    elif cmd == "validate-embedded":
        good = r.chance(50)
        blob = embed_blob(docgen.SCHEMA)
        files.append(["f", "bin/mytool", (b"\x00\x01junk" + blob).decode("utf-8", "surrogateescape"), 0o755])
        d2 = docgen.valid_for_schema(r) if good else docgen.invalid_for_schema(r)
        files.append(["f", "in.styx", "@schema {id test-schema, cli mytool}\n" + d2, 0o644])
        args = ["in.styx", "--validate"]
        expect = 0 if good else 2
    elif cmd == "skill":
        args = ["skill"]
    elif cmd == "completions":
        args = ["completions", r.pick(["bash", "zsh", "fish"])]
    elif cmd in ("cache", "clear"):
        args = ["cache"] + (["--clear"] if cmd == "clear" else [])
        if r.chance(80):
            files.append(["f", "cache/styx/schemas/embedded/tool/a.styx", "a 1\n", 0o644])
            files.append(["f", "cache/styx/schemas/crates/c/1.0.0.styx", "c 1\n", 0o644])
        targets = ["cache"] if cmd == "clear" else []
    else:
        args = r.pick([["in.styx", "--no-such-option"], ["nosuchcommand"], ["completions", "tcsh"], ["-", "--in-place"],
                       ["in.styx", "--schema", "x.styx"], ["in.styx", "-o", "in.styx"], ["gen", "cobol", "in.styx"], ["tree"]])
        files.append(["f", "in.styx", "a 1\n", 0o644])
        expect = None
    return {"files": files, "args": args, "stdin": stdin, "expect": expect, "targets": targets, "kind": "sub/" + cmd}


_BLOBS = {}


def embed_blob(schema, v1=False):
    """One embedded-schema blob for a schema text (or several, v1)."""
    key = (schema if isinstance(schema, str) else tuple(schema), v1)
    if key not in _BLOBS:
        d = fresh_dir(f"{SCRATCH}/embed-{os.getpid()}")
        names = []
        for k, s in enumerate([schema] if isinstance(schema, str) else schema):
            with open(f"{d}/s{k}", "wb") as f:
                f.write(s.encode())
            names.append(f"{d}/s{k}")
        subprocess.run([HELPER], input=f"{'v1' if v1 else 'v2'} {d}/out {' '.join(names)}\n".encode(), check=True)
        with open(f"{d}/out", "rb") as f:
            _BLOBS[key] = f.read()
        shutil.rmtree(d)
    return _BLOBS[key]


def execute(sc, root, variant):
    """Build the scenario's files and run the tool once under the variant's plan."""
    build_tree(root, sc["files"])
    os.makedirs(root + "/tmp", exist_ok=True)
    p = Plan(root)
    for k, v in variant.get("env", {}).items():
        p.d[k] = v
    p.faults = [tuple(f) for f in variant.get("faults", [])]
    p.sticky = [tuple(f) for f in variant.get("sticky", [])]
    return run_again(sc, root, p)


def run_again(sc, root, p):
    return run(sc["args"], root, p, stdin=sc["stdin"].encode("utf-8", "surrogateescape"),
               env={"PATH": root + "/bin"})


def classify(variant):
    """hard | soft | crash | env"""
    kinds = {f[1] for f in variant.get("faults", [])}
    if kinds & {"crash", "torn", "crashafter"}:
        return "crash"
    hard = any(k == "err" and int(v) != E.EINTR for _, k, v in variant.get("faults", [])) or variant.get("sticky")
    return "hard" if hard else "soft"


def variants(sc, base, r, limit, want):
    """Fault variants for a scenario whose fault-free run is `base`; seeded sample of at most `limit`."""
    vs = []
    for n, cls, op, path in base.steps:
        if cls == "stat" and "/bin/" in path:
            continue  # looking for a program in PATH: what cannot be examined is not there
        if "hard" in want:
            for e in HARD.get(cls, []):
                vs.append({"faults": [[n, "err", e]]})
            e = HARD.get(cls, [0])[0]
            if cls in HARD and cls != "stat":
                vs.append({"sticky": [[n, cls, e]]})
                if op == "create":
                    vs.append({"faults": [[n, "err", E.ENOSPC]]})
        if "soft" in want and cls in SOFT and op != "mmap":
            vs.append({"faults": [[n, "err", E.EINTR]]})
            if cls != "open":
                vs.append({"faults": [[n, "short", 1 + r.below(3)]]})
        if "crash" in want and cls in ("write", "meta", "sync", "open", "stdout"):
            vs.append({"faults": [[n, "crash", 0]]})
            if cls == "write":
                vs.append({"faults": [[n, "torn", r.below(4)]]})
                vs.append({"faults": [[n, "torn", 10 + r.below(3000)]]})
            vs.append({"faults": [[n, "crashafter", 0]]})
    if len(vs) > limit:
        vs = r.sample(vs, limit)
    # combinations
    extra = []
    last = base.steps[-1][0] if base.steps else 1
    for _ in range(3):
        if "soft" in want:
            extra.append({"env": {"segr": r.pick([1, 2, 7, 64]), "segw": r.pick([1, 3, 10, 100]), "eintr": r.pick([0, 50, 300]),
                                  "seed": r.below(1 << 30)}})
        if "hard" in want and last > 1:
            fs = []
            for _ in range(1 + r.below(3)):
                n, cls, op, path = r.pick(base.steps)
                if cls in HARD and r.chance(60):
                    fs.append([n, "err", r.pick(HARD[cls])])
                elif cls in ("write", "stdout"):
                    fs.append([n, "short", 1 + r.below(2000)])
            if fs:
                extra.append({"faults": fs, "env": {"segw": r.pick([0, 0, 50, 1000]), "seed": r.below(1 << 30)}})
        if "crash" in want and last > 1:
            extra.append({"faults": [[1 + r.below(last + 4), r.pick(["crash", "crashafter"]), 0]],
                          "env": {"segw": r.pick([1, 20, 500]), "segr": r.pick([0, 30]), "seed": r.below(1 << 30)}})
    if "env" in want:
        for _ in range(4):
            extra.append({"env": {"entropy": r.below(1 << 40), "pid": 100 + r.below(30000), "time": 1 + r.below(4000000000)}})
    return vs + extra


def note(out, res, variant):
    out.count("runs")
    out.count("steps", len(res.steps))
    for n, cls, f in res.faults:
        out.count(f"fault:{cls} {fault_name(f)}")
    env = variant.get("env", {})
    for k, label in (("segr", "reads cut into pieces"), ("segw", "writes cut into pieces")):
        if env.get(k):
            out.count("fault:" + label)
    if "entropy" in env:
        out.count("fault:other random seeds, pid and clock")
    out.state(tuple((c, o) for _, c, o, _ in res.steps), res.code, tuple((c, fault_name(f)) for _, c, f in res.faults))


def fault_name(f):
    k, v = f.split(" ")
    if k == "err":
        return E.errorcode.get(int(v), v)
    return k


def same(a, b):
    return a.code == b.code and a.out == b.out


def check_exit(sc, base, base_tree, res, tree, variant, root):
    """D04/D05: equal to the fault-free outcome, or exit 3 with a message."""
    v = []
    kind = classify(variant)
    what = f"styx {' '.join(sc['args'])} [{sc['kind']}] under {json.dumps(variant)}\n" \
           f"faults that fired: {res.faults}\nexit {res.code} (fault-free {base.code}), stderr {clip(describe(res.err, root))!r}"
    if res.timeout:
        return [("hang", "did not end\n" + what)]
    if res.code < 0 or res.code not in (0, 1, 2, 3):
        return [("crashed", "ended abnormally\n" + what)]
    if res.code != 0 and not res.err:
        v.append(("silent-failure", "non-zero exit without a message\n" + what))
    faulted = {f[0] for f in res.faults}
    if any(n in faulted and c == "stat" and "/bin/" in p for n, c, _, p in res.steps):
        return v  # looking for a program in PATH: what cannot be examined is not there
    equal = same(res, base) and tree == base_tree
    if res.faults or variant.get("env"):
        if kind == "soft":
            if not equal:
                v.append(("delivery-dependent",
                          "interrupted or piecemeal I/O changed the result\n" + what + diff(base, res, base_tree, tree)))
        elif not equal and res.code != 3:
            if res.code == 0:
                v.append(("false-success", "exit 0 although the output is not what it should be\n" + what + diff(base, res, base_tree, tree)))
            else:
                v.append(("wrong-status", "an I/O failure must give exit 3\n" + what + diff(base, res, base_tree, tree)))
    return v


def diff(base, res, base_tree, tree):
    s = ""
    if base.out != res.out:
        s += f"\nstdout {clip(res.out)!r}\ninstead of {clip(base.out)!r}"
    for k in sorted(set(base_tree) | set(tree)):
        if base_tree.get(k) != tree.get(k):
            s += f"\nfile {k}: {describe_entry(tree.get(k))} instead of {describe_entry(base_tree.get(k))}"
    return s


def describe_entry(e):
    if e is None:
        return "absent"
    return f"{e[0]} {clip(e[1])!r} mode {e[2]:o}"


def check_files(sc, before, base_tree, base, res, tree, variant, root):
    """D03: every target is completely old or completely new, everything else untouched."""
    v = []
    crash = res.code == CRASH_EXIT
    what = f"styx {' '.join(sc['args'])} [{sc['kind']}] under {json.dumps(variant)}\nfaults that fired: {res.faults}\nexit {res.code}"
    for op, path in res.escapes:
        v.append(("escape", f"tried to change {describe(path, root)} ({op})\n" + what))
    for k in sorted(set(before) | set(tree)):
        if k == "tmp" or k.startswith("tmp/"):
            continue
        old, new = before.get(k), tree.get(k)
        if any(k == t or (t == "cache" and k.startswith("cache/")) for t in sc["targets"]):
            want = base_tree.get(k)
            if new == old or (new == want and not (base.code != 0 and not res.faults)):
                continue
            if base.code != 0 and new != old:
                v.append(("overwritten-on-error", f"{k}: {describe_entry(new)} although the input is unusable\n" + what))
            elif new and want and new[1] == want[1] and new[2] != want[2]:
                if not crash:
                    v.append(("mode-changed", f"{k}: mode {new[2]:o}, was {old and oct(old[2])}\n" + what))
            elif old is None and crash:
                pass  # a new file may be incomplete after a crash
            else:
                v.append(("torn", f"{k}: {describe_entry(new)}\nneither the previous {describe_entry(old)}\nnor the new {describe_entry(want)}\n" + what))
            if res.code == 0 and new != want:
                v.append(("false-success", f"{k}: {describe_entry(new)} after exit 0\n" + what))
            continue
        if old is None:
            if new[0] == "d" or crash:
                continue
            faulted = {f[0] for f in res.faults}
            if any(n in faulted and op == "unlink" for n, _, op, _ in res.steps):
                continue  # the removal itself was made to fail
            v.append(("stray", f"stray file {k}: {describe_entry(new)}\n" + what))
        elif new != old:
            if sc["targets"] == ["cache"] and k.startswith("cache"):
                continue
            v.append(("bystander", f"{k}: {describe_entry(new)}, was {describe_entry(old)}\n" + what))
    return v


def shrink_case(case):
    """Smaller cases to try, simplest first."""
    va = case["variant"]
    fs = va.get("faults", [])
    for i in range(len(fs)):
        if len(fs) > 1:
            c = copy.deepcopy(case)
            del c["variant"]["faults"][i]
            yield c
    if va.get("env") and fs:
        c = copy.deepcopy(case)
        del c["variant"]["env"]
        yield c
    for k in list(va.get("env", {})):
        c = copy.deepcopy(case)
        del c["variant"]["env"][k]
        yield c
    sc = case["scenario"]
    for i, f in enumerate(sc["files"]):
        if f[1] not in " ".join(sc["args"]) and f[1] not in sc["targets"]:
            c = copy.deepcopy(case)
            del c["scenario"]["files"][i]
            yield c
    for i, f in enumerate(sc["files"]):
        if f[0] == "f" and f[2].isprintable() is False or (f[0] == "f" and len(f[2]) > 20):
            lines = f[2].splitlines(True)
            cuts = [lines[:len(lines) // 2], lines[len(lines) // 2:]] if len(lines) > 1 else []
            if 1 < len(lines) <= 12:
                cuts += [lines[:k] + lines[k + 1:] for k in range(len(lines))]
            for cut in cuts:
                c = copy.deepcopy(case)
                c["scenario"]["files"][i][2] = "".join(cut)
                yield c
