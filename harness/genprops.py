"""D09: code generation and packaging into directories, under faults, crashes and repeated runs."""
from cliprops import *

GEN = {"gen": ["types.go", "validation.go", "parse.go"], "package": ["Cargo.toml", "src/lib.rs", "README.md", "schema.styx"]}


def scenario(r):
    files = [["f", "bystander.styx", "keep me\n", 0o644]]
    cmd = r.pick(["gen", "package"])
    k = r.below(20)
    schema = wide_schema(r) if k < 14 else docgen.SCHEMA if k < 18 else docgen.broken(r)
    schema = schema.replace("id wide", "id wide\n  // " + "x" * r.pick([0, 10, 200, 1500]))
    broken = k >= 18
    out = r.pick(["out", "out/deep/er", ".", "./out", "out dir"])
    inp = r.pick(["schema.styx", "in/schema.styx", "my-types.styx", "./schema.styx"])
    if cmd == "package" and r.chance(25):
        out, inp = r.pick([(".", "schema.styx"), ("out", "out/schema.styx"), ("out", "./out/schema.styx")])
    files.append(["f", norm(inp), schema, r.pick([0o644, 0o600, 0o444])])
    expect = 1 if broken else 0
    ok_dir = True
    o = norm(out)
    exists = r.chance(65) or out == "."
    if exists:
        if out != "." and not norm(inp).startswith(o + "/") and r.chance(15):
            files.append(["d", "elsewhere", "", 0])
            files.append(["l", o, ("../" * o.count("/")) + "elsewhere", 0])
        else:
            files.append(["d", o, "", 0])
        for g in GEN[cmd]:
            if r.chance(50) and not any(f[1] == join(o, g) for f in files):
                c = r.pick(["", "old\n", "// older and longer\n" * 800])
                if r.chance(10) and "/" not in g:
                    files.append(["f", "linked-" + g, c, 0o644])
                    files.append(["l", join(o, g), "../" * (o.count("/") + (o != ".")) + "linked-" + g, 0])
                else:
                    files.append(["f", join(o, g), c, r.pick([0o644, 0o640])])
        for f in ("LICENSE", "src/extra.rs", "src/main.rs", "helper.go", "types_test.go", ".git/HEAD", "Cargo.lock", "schema.styx.bak",
                  "types.go.tmp", "types.go~", "CHANGELOG.md", ".cargo/config.toml"):
            if r.chance(20):
                files.append(["f", join(o, f), f"mine: {f}\n", 0o644])
    elif cmd == "gen":
        expect = 1 if broken else 3
    if cmd == "gen":
        args = ["gen", r.pick(["go", "Go"]), inp]
        if out != "." or r.chance(50):
            args += ["--output", out]
        if r.chance(70):
            args += ["--package", r.pick(["p", "my-pkg", "config"])]
    else:
        args = ["package", inp, "--name", r.pick(["my-schema", "s"]), "--version", r.pick(["0.1.0", "12.0.3"]), "--output", out]
    if exists and r.chance(6) and out != ".":
        # something in the way
        g = r.pick(GEN[cmd])
        files = [f for f in files if f[1] != join(o, g) and not f[1].startswith(join(o, g) + "/")]
        if norm(inp) != join(o, g):
            files.append(["d", join(o, g), "", 0])
            expect = 1 if broken else 3
        else:
            files.append(["f", norm(inp), schema, 0o644])
    # the schema as the user edits it before running the command again
    later = None if r.chance(50) else wide_schema(r)
    return {"files": files, "args": args, "stdin": "", "expect": expect, "targets": [], "kind": "d09/" + cmd, "cmd": cmd, "out": o,
            "input": norm(inp), "later": later}


def norm(p):
    return os.path.normpath(p)


def join(a, b):
    return os.path.normpath(os.path.join(a, b))


def real_targets(sc, root):
    """Generated paths relative to the root, after resolving links."""
    res = set()
    for g in GEN[sc["cmd"]]:
        p = os.path.join(root, sc["out"], g)
        res.add(os.path.relpath(os.path.realpath(p), os.path.realpath(root)))
        res.add(os.path.normpath(join(sc["out"], g)))
    return res


def contents(sc, root):
    d = {}
    for g in GEN[sc["cmd"]]:
        p = os.path.join(root, sc["out"], g)
        try:
            with open(p, "rb") as f:
                d[g] = f.read()
        except OSError:
            d[g] = None
    return d


def clean_run(sc, root, schema=None):
    """The same command into an otherwise empty directory: the reference result."""
    src = schema if schema is not None else next(f[2] for f in sc["files"] if f[1] == sc["input"])
    alt = dict(sc)
    alt["files"] = [["f", sc["input"], src, 0o644], ["d", sc["out"], "", 0]]
    res = execute(alt, root + ".clean", {})
    c = contents(sc, root + ".clean")
    t = tree_of(root + ".clean", ("tmp",))
    remove_tree(root + ".clean")
    return res, c, t


def compare(sc, got, want, what, cls):
    for g in GEN[sc["cmd"]]:
        if got[g] != want[g]:
            return [(cls, f"{join(sc['out'], g)}: {clip(got[g]) if got[g] is not None else 'absent'!r}\ninstead of {clip(want[g] or b'absent')!r}\n{what}")]
    return []


def undamaged(sc, before, tree, root, crash, what, res):
    v = []
    mine = real_targets(sc, root)
    dirs = set()
    for m in mine:
        while m:
            m = os.path.dirname(m)
            dirs.add(m)
    unlink_failed = any(f[0] == n and op == "unlink" for f in res.faults for n, _, op, _ in res.steps)
    for k in sorted(set(before) | set(tree)):
        old, new = before.get(k), tree.get(k)
        if old == new:
            continue
        if k == sc["input"]:
            # package may write the schema back into place, unchanged
            if old and new and old[0] == "f" and new[1] == old[1]:
                continue
            v.append(("input-damaged", f"schema input {k}: {describe_entry(new)}, was {describe_entry(old)}\n{what}"))
        elif k in mine:
            if old and not new:
                v.append(("removed", f"{k} is gone, was {describe_entry(old)}\n{what}"))
        elif old is None and (new[0] == "d" and k in dirs or crash or unlink_failed):
            continue
        else:
            v.append(("foreign-damaged" if old else "stray", f"{k}: {describe_entry(new)}, was {describe_entry(old)}\n{what}"))
    for op, path in res.escapes:
        v.append(("escape", f"tried to change {describe(path, root)} ({op})\n{what}"))
    return v


def semantic(sc, base, got, what):
    """What the result must be, apart from equalling a fault-free run's."""
    v = []
    if sc["cmd"] == "package":
        src = next(f[2] for f in sc["files"] if f[1] == sc["input"]).encode("utf-8", "surrogateescape")
        name, version = sc["args"][3], sc["args"][5]
        if got["schema.styx"] != src:
            v.append(("wrong-content", f"schema.styx differs from the schema\n{what}"))
        if f'name = "{name}"'.encode() not in (got["Cargo.toml"] or b"") or f'version = "{version}"'.encode() not in (got["Cargo.toml"] or b""):
            v.append(("wrong-content", f"Cargo.toml without name and version\n{what}"))
        if b'include_str!("../schema.styx")' not in (got["src/lib.rs"] or b""):
            v.append(("wrong-content", f"src/lib.rs does not include the schema\n{what}"))
    else:
        for g in GEN["gen"]:
            if b"package " not in (got[g] or b""):
                v.append(("wrong-content", f"{g} has no package clause\n{what}"))
    return v


def baseline(sc, root):
    b = Result()
    build_tree(root, sc["files"])
    b.before = tree_of(root, ("tmp",))
    b.res = execute(sc, root, {})
    b.tree = tree_of(root, ("tmp",))
    b.files = contents(sc, root)
    b.clean, b.clean_files, _ = clean_run(sc, root)
    return b


def fault_free9(sc, b, root):
    what = f"styx {' '.join(sc['args'])}: exit {b.res.code}, stderr {clip(describe(b.res.err, root))!r}"
    v = []
    if b.res.timeout or b.res.code not in (0, 1, 2, 3):
        return [("crashed", what)]
    if sc["expect"] is not None and (b.res.code == 0) != (sc["expect"] == 0):
        v.append(("wrong-status-fault-free", f"{what}, expected {sc['expect']}"))
    v += undamaged(sc, b.before, b.tree, root, False, what, b.res)
    if b.res.code == 0:
        v += semantic(sc, b, b.files, what)
        v += compare(sc, b.files, b.clean_files, what + "\ncompared with a run into an empty directory", "depends-on-old-content")
    return v


def faulted(sc, variant, b, root, out=None):
    res = execute(sc, root, variant)
    if out is not None:
        note(out, res, variant)
    what = f"styx {' '.join(sc['args'])} under {json.dumps(variant)}\nfaults that fired: {res.faults}\nexit {res.code}, stderr {clip(describe(res.err, root))!r}"
    tree = tree_of(root, ("tmp",))
    crash = res.code == CRASH_EXIT
    v = []
    if res.timeout or (not crash and res.code not in (0, 1, 2, 3)):
        return [("crashed", what)]
    v += undamaged(sc, b.before, tree, root, crash, what, res)
    hard = classify(variant) == "hard"
    if res.code == 0:
        v += compare(sc, contents(sc, root), b.clean_files, what, "false-success")
    elif not crash and b.res.code == 0 and not hard:
        v.append(("false-failure", what))
    if b.res.code != 0:
        return v
    # run again until it works: first with the crash's or failure's leftovers, possibly after an edit
    want = b.clean_files
    if "chain" in variant:
        p = Plan(root)
        p.faults = [tuple(f) for f in variant["chain"]]
        r1 = run_again(sc, root, p)
        if out is not None:
            note(out, r1, {"faults": variant["chain"]})
        what += f"\nthen again with {variant['chain']}: exit {r1.code}"
    if sc["later"] and variant.get("edit"):
        with open(os.path.join(root, sc["input"]), "w") as f:
            f.write(sc["later"])
        rc, want, _ = clean_run(sc, root, sc["later"])
        if rc.code != 0:
            return v
        what += "\nthen the schema was edited"
    r2 = run_again(sc, root, Plan(root))
    if out is not None:
        note(out, r2, {})
        out.count("reach:run again after " + ("a crash" if crash else "a failure" if res.code else "success"))
    what += f"\nthen again without faults: exit {r2.code} {clip(describe(r2.err, root))!r}"
    if r2.code != 0:
        v.append(("blocked-after-failure", what))
    else:
        v += compare(sc, contents(sc, root), want, what, "rerun-differs")
        v += undamaged({**sc, "input": "-"} if variant.get("edit") else sc, b.before if not variant.get("edit") else {k: e for k, e in b.before.items() if k != sc["input"]},
                       {k: e for k, e in tree_of(root, ("tmp",)).items() if not (variant.get("edit") and k == sc["input"])},
                       root, True, what, r2)
    return v


def power(sc, variant, b, root, out=None):
    """The machine loses power; the command is run again on what the disk kept."""
    if b.res.code != 0:
        return []
    execute_only_files(sc, root)
    initial = disk.snapshot(root)
    p = Plan(root)
    p.faults = [tuple(f) for f in variant.get("faults", [])]
    res = run_again(sc, root, p)
    images = list(disk.power_loss_images(initial, res.ops))
    r = Rng("power", json.dumps(variant))
    for desc, d in ([images[variant["image"]]] if "image" in variant and variant["image"] < len(images) else r.sample(images, min(4, len(images)))):
        disk.materialise(d, root)
        os.makedirs(root + "/tmp", exist_ok=True)
        t = tree_of(root, ("tmp",))
        what = f"styx {' '.join(sc['args'])} {json.dumps(variant)}, power loss: {desc}"
        v = undamaged(sc, b.before, t, root, True, what, res)
        r2 = run_again(sc, root, Plan(root))
        if out is not None:
            out.count("fault:power loss")
            note(out, r2, {})
        what += f"\nthen again: exit {r2.code} {clip(describe(r2.err, root))!r}"
        if r2.code != 0:
            v.append(("blocked-after-failure", what))
        else:
            v += compare(sc, contents(sc, root), b.clean_files, what, "rerun-differs")
        if v:
            return v
    return []


def work(i, out):
    r = Rng("D09", SEED, i)
    root = f"{SCRATCH}/D09/{i}"
    sc = scenario(r)
    b = baseline(sc, root)
    note(out, b.res, {})
    out.count("reach:" + sc["cmd"] + (" succeeds" if b.res.code == 0 else " fails"))
    for cls, text in fault_free9(sc, b, root):
        out.violation(cls, text, {"scenario": sc, "variant": None, "root": root})
    if b.res.code in (0, 1, 2, 3):
        for va in variants(sc, b.res, r, 40, ("hard", "crash", "soft")):
            if r.chance(30):
                n, c, op, _ = r.pick(b.res.steps)
                va["chain"] = [[n, "crash", 0]] if r.chance(50) else [[n, "err", r.pick(HARD.get(c, [E.EIO]))]]
            va["edit"] = bool(sc["later"]) and r.chance(30)
            for cls, text in faulted(sc, va, b, root, out):
                out.violation(cls, text, {"scenario": sc, "variant": va, "root": root})
            if classify(va) == "crash" and r.chance(40):
                pv = {"faults": va["faults"], "power": True}
                for cls, text in power(sc, pv, b, root, out):
                    out.violation(cls, text, {"scenario": sc, "variant": pv, "root": root})
            if len(out.violations) > 5:
                break
    if i < 4:
        out.samples.append({"args": sc["args"], "exit": b.res.code, "steps": [f"{c} {o} {describe(p, root)}" for _, c, o, p in b.res.steps][:40]})
    remove_tree(root)


def recheck(case):
    root, sc = case["root"], case["scenario"]
    b = baseline(sc, root)
    try:
        if case["variant"] is None:
            return fault_free9(sc, b, root)
        if case["variant"].get("power"):
            return power(sc, case["variant"], b, root)
        return faulted(sc, case["variant"], b, root)
    finally:
        remove_tree(root)


def shrink9(case):
    va = case["variant"]
    if va:
        for k in ("chain", "edit"):
            if va.get(k):
                c = copy.deepcopy(case)
                c["variant"].pop(k)
                yield c
    for c in shrink(case):
        if any(f[1] == c["scenario"]["input"] for f in c["scenario"]["files"]):
            yield c


def make():
    return Check("D09", work, recheck, {"quick": 120, "thorough": 4000}, shrink=shrink9,
                 rule="seeded schemas, output locations and existing directory contents; for each a fault-free run, then one run per sampled fault or crash at a step, further faulted runs, schema edits and a final undisturbed run; distinct = distinct (step sequence, faults fired, exit status)",
                 components={"real": REAL, "stub": STUB}, prepare=build_cli,
                 assumptions=["the tool reaches the operating system through libc's symbols (checked at start of each run)"])
