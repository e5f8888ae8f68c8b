"""The checks of the command-line tool: D03, D04, D05 (command-line part), D07 (command-line part)."""
from clicases import *

LEVELS = {"quick": 1, "thorough": 6}


def one_case(prop, sc, variant, root, out=None, base=None, want=None):
    """Run a scenario under a variant and evaluate the property; -> [(class, text)]"""
    if base is None:
        base = execute(sc, root, {})
        base.tree = tree_of(root, ("tmp",))
    res = execute(sc, root, variant)
    tree = tree_of(root, ("tmp",))
    if out is not None:
        note(out, res, variant)
    v = []
    if prop in ("D04", "D05"):
        if res.code != CRASH_EXIT:
            v += check_exit(sc, base, base.tree, res, tree, variant, root)
    if prop == "D07":
        if out is not None:
            out.state(res.code, res.out, res.err)
        if not (same(res, base) and tree == base.tree and res.err == base.err):
            v.append(("unstable", f"styx {' '.join(sc['args'])} [{sc['kind']}] differs under {json.dumps(variant)}"
                      + diff(base, res, base.tree, tree) + f"\nstderr {clip(describe(res.err, root), 800)!r}\ninstead of {clip(describe(base.err, root), 800)!r}"))
    if prop == "D03":
        before = sc_tree(sc, root)
        v += check_files(sc, before, base.tree, base, res, tree, variant, root)
        if res.code == CRASH_EXIT:
            if out is not None:
                out.count("reach:process crash mid-run")
            v += recover(sc, base, root, variant, res)
            v += power_loss(sc, base, root, variant, out)
    return v


def sc_tree(sc, root):
    """What the scenario's files look like before the run."""
    build_tree(root + ".before", sc["files"])
    t = tree_of(root + ".before", ("tmp",))
    shutil.rmtree(root + ".before")
    return t


def recover(sc, base, root, variant, res):
    """After a crash a second, undisturbed run must do the whole job."""
    if sc["targets"] == ["cache"] or base.code != 0:
        return []
    if sc["args"] and "--in-place" in sc["args"]:
        pass  # formatting the old or the new content: must still end well
    r2 = run_again(sc, root, Plan(root))
    if r2.code != 0:
        return [("blocked-after-crash", f"styx {' '.join(sc['args'])}: exit {r2.code} ({clip(describe(r2.err, root))!r}) when run again after a crash\n"
                 f"variant {json.dumps(variant)}, faults {res.faults}")]
    if "--in-place" not in sc["args"]:
        t = tree_of(root, ("tmp",))
        for k in sc["targets"]:
            if t.get(k) != base.tree.get(k):
                return [("blocked-after-crash", f"{k}: {describe_entry(t.get(k))} after running again, instead of {describe_entry(base.tree.get(k))}")]
    return []


def power_loss(sc, base, root, variant, out):
    """The same run, but the machine loses power at the crash point."""
    if base.code != 0:
        return []
    execute_only_files(sc, root)
    initial = disk.snapshot(root)
    p = Plan(root)
    for k, val in variant.get("env", {}).items():
        p.d[k] = val
    p.faults = [tuple(f) for f in variant.get("faults", [])]
    res = run_again(sc, root, p)
    v = []
    olds = {t: initial.read(os.path.join(root, t)) for t in sc["targets"]}
    for desc, d in disk.power_loss_images(initial, res.ops):
        if out is not None:
            out.count("fault:power loss")
        for t in sc["targets"]:
            old = olds[t]
            if old is None:
                continue
            new = base.tree.get(t)
            got = d.read(os.path.join(root, t))
            if got != old and not (new and got == new[1]):
                v.append(("torn-by-power-loss", f"{t}: {clip(got or b'(absent)')!r} after a power loss ({desc})\n"
                          f"neither the previous {clip(old)!r}\nnor the new {describe_entry(new)}\nstyx {' '.join(sc['args'])}, {json.dumps(variant)}"))
                return v
    return v


def execute_only_files(sc, root):
    build_tree(root, sc["files"])
    os.makedirs(root + "/tmp", exist_ok=True)


def fault_free(prop, sc, base, root):
    """Oracles that need no fault: expected exit status, agreement between delivery paths."""
    v = []
    if base.timeout:
        return [("hang", f"styx {' '.join(sc['args'])} did not end")]
    if prop in ("D03", "D04"):
        if sc["expect"] is not None and base.code != sc["expect"]:
            v.append(("wrong-status-fault-free", f"styx {' '.join(sc['args'])} [{sc['kind']}]: exit {base.code}, expected {sc['expect']}\n"
                      f"stderr {clip(describe(base.err, root))!r}"))
        if base.code not in (0, 1, 2, 3):
            v.append(("crashed", f"styx {' '.join(sc['args'])} [{sc['kind']}]: exit {base.code}\nstderr {clip(describe(base.err, root))!r}"))
        if base.code != 0 and not base.err:
            v.append(("silent-failure", f"styx {' '.join(sc['args'])}: exit {base.code} without a message"))
    if prop == "D03":
        v += check_files(sc, sc_tree(sc, root), base.tree, base, base, base.tree, {}, root)
        if base.code == 0 and sc["targets"] and sc["targets"] != ["cache"]:
            alt = copy.deepcopy(sc)
            a = [x for x in alt["args"] if x != "--in-place"]
            for o in ("-o", "--json-out"):
                if o in a:
                    a[a.index(o) + 1] = "-"
            if "--validate" in a and not ("-o" in a or "--json-out" in a):
                a += ["-o", "-"]
            alt["args"] = a
            r2 = execute(alt, root, {})
            t = base.tree.get(sc["targets"][0])
            if r2.code == 0 and (t is None or t[1] != r2.out):
                v.append(("wrong-content", f"styx {' '.join(sc['args'])} left {describe_entry(t)}\nbut prints {clip(r2.out)!r}"))
    if prop == "D05" and sc["kind"] != "sub/usage":
        alt = copy.deepcopy(sc)
        if sc["stdin"] and "-" in sc["args"]:
            k = sc["args"].index("-")
            alt["args"][k] = "./piped.styx"
            alt["files"].append(["f", "piped.styx", sc["stdin"], 0o644])
            alt["stdin"] = ""
        elif sc["args"] and "in.styx" in sc["args"] and "--in-place" not in sc["args"] and "--validate" not in sc["args"]:
            src = [f for f in sc["files"] if f[1] == "in.styx" and f[0] == "f"]
            if not src:
                return v
            alt["args"] = ["-" if x == "in.styx" else x for x in sc["args"]]
            alt["stdin"] = src[0][2]
        else:
            return v
        r2 = execute(alt, root, {})
        def plain(x):  # some reports name their input
            for n in (b"<stdin>", b"./piped.styx", b"piped.styx", b"in.styx"):
                x = x.replace(n, b"INPUT")
            return x
        if (r2.code, plain(r2.out)) != (base.code, plain(base.out)):
            v.append(("source-dependent", f"styx {' '.join(sc['args'])}: exit {base.code} {clip(base.out)!r}\n"
                      f"styx {' '.join(alt['args'])}: exit {r2.code} {clip(r2.out)!r}\nfor the same input"))
    return v


WANT = {"D03": ("hard", "crash"), "D04": ("hard",), "D05": ("soft",), "D07": ("env",)}
LIMIT = {"D03": 60, "D04": 50, "D05": 40, "D07": 0}


def scenario_for(prop, r):
    if prop == "D03":
        return file_scenario(r, True)
    if prop == "D07":
        return d07_scenario(r)
    return file_scenario(r) if r.chance(60) else sub_scenario(r)


def d07_scenario(r):
    k = r.below(10)
    if k < 3:
        files = [["f", "schema.styx", wide_schema(r), 0o644], ["f", "in.styx", near_misses(r), 0o644]]
        return {"files": files, "args": ["in.styx", "--validate", "--schema", "schema.styx"], "stdin": "", "expect": None,
                "targets": [], "kind": "validate"}
    if k < 6:
        files = [["f", "schema.styx", wide_schema(r), 0o644]]
        return {"files": files, "args": ["gen", "go", "schema.styx", "--output", "out", "--package", "p"], "stdin": "", "expect": None,
                "targets": [], "kind": "gen"}
    if k < 8:
        return sub_scenario(r)
    return file_scenario(r)


def near_misses(r):
    """A document with unknown names that are equally close to several names of wide_schema's schemas."""
    out = [docgen.invalid_for_schema(r)] if r.chance(50) else ["name web\n"]
    for j, name in enumerate(r.sample(["reqx", "req", "re0", "seta", "heta", "eta1", "eto", "betta", "gamm", "lpha", "delto", "nome", "tort"], r.below(6))):
        out.append(f"{name} {r.pick(['1', 'x', '@fastt', '{a 1, bb 2, zz 3}', '(1 2)'])}\n")
    for n in r.sample(["alpha", "beta", "gamma", "delta", "epsilon", "zeta", "eta", "theta"], r.below(5)):
        out.append(f"{n} {r.pick(['@on', '@tw', '@fou', '@xx', '{g 1, h 2}', '{a @, ab 1}', 'word', '{aa 1}', '{}'])}\n")
    return "".join(out)


def wide_schema(r):
    """A schema with many named types, so that iteration order has room to differ."""
    names = r.sample(["Alpha", "Beta", "Gamma", "Delta", "Epsilon", "Zeta", "Eta", "Theta"], 2 + r.below(6))
    s = "meta {\n  id wide\n  version 1.0.0\n}\nschema {\n  @ @object{\n    name @string\n    port @optional(@int)\n"
    for n in names:
        s += f"    {n.lower()} @optional(@{n})\n"
    for k in range(r.below(7)):
        s += f"    req{k} {r.pick(['@string', '@optional(@int)'])}\n"
    s += "  }\n"
    for n in names:
        if r.chance(70):
            fields = r.sample(["a", "b", "c", "d", "e", "f"], 1 + r.below(5))
            s += f"  {n} @object{{\n" + "".join(f"    {x} {r.pick(['@string', '@int', '@bool', '@seq(@string)', '@map(@string @int)'])}\n" for x in fields) + "  }\n"
        else:
            vs = r.sample(["one", "two", "three", "four", "on", "ton", "for", "xa", "xb"], 2 + r.below(5))
            s += f"  {n} @enum{{\n" + "".join(f"    {x} @unit\n" for x in vs) + "  }\n"
    return s + "}\n"


def work_for(prop):
    def work(i, out):
        r = Rng(prop, SEED, i)
        root = f"{SCRATCH}/{prop}/{i}"
        sc = scenario_for(prop, r)
        base = execute(sc, root, {})
        base.tree = tree_of(root, ("tmp",))
        note(out, base, {})
        out.count("reach:scenario " + sc["kind"].split("/")[0])
        for cls, text in fault_free(prop, sc, base, root):
            out.violation(cls, text, {"scenario": sc, "variant": None, "root": root})
        if base.code in (0, 1, 2, 3):
            for va in variants(sc, base, r, LIMIT[prop], WANT[prop]):
                for cls, text in one_case(prop, sc, va, root, out, base):
                    out.violation(cls, text, {"scenario": sc, "variant": va, "root": root})
                if len(out.violations) > 5:
                    break
        if i < 4:
            out.samples.append({"args": sc["args"], "kind": sc["kind"], "exit": base.code, "steps": [f"{c} {o} {describe(p, root)}" for _, c, o, p in base.steps][:40]})
        remove_tree(root)
    return work


def recheck_for(prop):
    def recheck(case):
        root = case["root"]
        sc = case["scenario"]
        base = execute(sc, root, {})
        base.tree = tree_of(root, ("tmp",))
        try:
            if case["variant"] is None:
                return fault_free(prop, sc, base, root)
            return one_case(prop, sc, case["variant"], root, None, base)
        finally:
            remove_tree(root)
    return recheck


def shrink(case):
    if case["variant"] is None:
        c2 = dict(case)
        c2["variant"] = {}
        for c in shrink_case(c2):
            c["variant"] = None
            yield c
    else:
        yield from shrink_case(case)


REAL = ["styx executable built from the working tree (arguments, parsing, formatting, validation, printing, exit status)",
        "Rust standard library", "files below a scratch directory"]
STUB = ["libc file, stream, randomness, clock and process calls (simos, preloaded)", "helper programs (curl, cargo)"]


def make(prop, runs, rule):
    return Check(prop, work_for(prop), recheck_for(prop), runs, shrink=shrink, rule=rule,
                 components={"real": REAL, "stub": STUB}, prepare=build_cli,
                 assumptions=["standard error accepts what is written to it",
                              "the tool reaches the operating system through libc's symbols (checked at start of each run)"])
