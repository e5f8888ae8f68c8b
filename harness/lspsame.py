"""The language server's part of D05 (delivery does not matter) and D07 (the same session, the same output)."""
import cliprops
from lspprops import *
import re

DELIVERIES = [{"seg": 1}, {"seg": 2}, {"seg": 3, "spurious": 30}, {"seg": 7}, {"seg": 64, "spurious": 60}, {"cap": 16}, {"cap": 512, "seg": 5}, {"seg": 1, "cap": 64},
              {"delay": [0, 3], "seg": 50}, {"spurious": 70}]
QUIET = 4000


def calm(case, r):
    """The same session with time to settle after every step, and extensions that answer at once."""
    script = []
    for op in case["script"]:
        if op[0] in ("wait", "yield", "stall", "cancel"):
            continue
        script += [op, ["wait", QUIET]]
    script += [["wait", 30000]]
    return dict(case, script=script, exts={p: [{}] for p in case["exts"]}, pause=0, out={}, reply_ms=0, **{"in": {}})


def gen(prop, i, r):
    case = calm(session_case(prop, i, r, edits=16, n=r.pick([4, 8, 14]), allow=70), r)
    case["dir"] = f"{SCRATCH}/{prop}-s{i}"
    if prop == "D07":
        # Several names equally close to one that does not exist, several problems in one document.
        if r.chance(60):
            case["files"]["w/wide.styx"] = cliprops.wide_schema(r)
            for k in range(1 + r.below(2)):
                p = f"w/near{k}.styx"
                t = "@schema wide.styx\n" + cliprops.near_misses(r)
                ops = [["open", p, t, 1], ["wait", QUIET], ["action", 9000 + 10 * k, p, {"range": {"start": {"line": 0, "character": 0}, "end": {"line": 99, "character": 0}}}], ["wait", QUIET]]
                for j, m in enumerate(("completion", "hover", "documentSymbol", "semanticTokens/full", "inlayHint")):
                    if r.chance(60):
                        ops += [["req", 9001 + 10 * k + j, PREFIX + m, G.gen_params(r, m, G.uri_of(p), t)], ["wait", QUIET]]
                case["script"] = ops + case["script"]
        case["others"] = [{"plan": {"entropy": r.below(1 << 40), "pid": 100 + r.below(30000), "time": 1 + r.below(4000000000)}} for _ in range(2)]
    else:
        o = []
        for _ in range(2):
            o.append({"in": r.pick(DELIVERIES), "out": r.pick(DELIVERIES), "ext": r.pick([{}] + DELIVERIES),
                      "plan": {"segr": r.pick([1, 2, 7, 64, 0]), "segw": r.pick([1, 3, 10, 0]), "eintr": r.pick([0, 50, 300]), "seed": r.below(1 << 30)}})
        # One file cannot be read, or not to its end.
        o.append({"reads": [r.pick([5, 9, 12]), r.below(1000), r.pick([0, 0, 7, 60])]})
        case["others"] = o
    return case


def said(h):
    """What the editor received after each of its own messages: [(script index, [messages])]."""
    steps, cur = [], []
    steps.append((-1, cur))
    for e in h.ev:
        if e["e"] == "send" and e["i"] is not None and e["i"] >= 0:
            cur = []
            steps.append((e["i"], cur))
        elif e["e"] == "recv":
            cur.append(json.dumps(e["m"], ensure_ascii=False))
    for _, c in steps:
        # Messages of different kinds come from different tasks; a log message may name the process.
        c[:] = [m for _, m in sorted(((kind(m), PID.sub("(PID: …)", m) if kind(m)[0] == 3 else m) for m in c), key=lambda x: x[0])]
    return steps


PID = re.compile(r"\(PID: \d+\)")


def kind(m):
    m = json.loads(m)
    if "method" not in m:
        return (0, str(m["id"]))
    return {"textDocument/publishDiagnostics": (1, (m.get("params") or {}).get("uri")), "window/logMessage": (3,)}.get(m["method"], (2,))


def ext_heard(h):
    """What the extensions were told and what they answered."""
    return [json.dumps({k: v for k, v in e.items() if k not in ("n", "t")}, sort_keys=True) for e in h.ev if e["e"] in ("ext", "spawn", "host", "ext_call")]


def variant(case, o):
    c = dict(case)
    plan = dict(o.get("plan") or {})
    for k in ("in", "out"):
        if k in o:
            c[k] = o[k]
    if o.get("ext"):
        c["exts"] = {p: [{"pipe": o["ext"]}] for p in case["exts"]}
    c["plan"] = plan
    return c


def judge(prop):
    def f(case, out=None):
        res = {}
        base = run_case(case)
        if base.dead:
            return base, [("server process " + base.dead[0], f"exit code {base.dead[1]}")]
        if out is not None:
            note(out, base)
        want, heard = said(base), ext_heard(base)
        for o in case["others"]:
            if "reads" in o:
                for cls, text in failed_read(case, o["reads"], want, out):
                    res.setdefault(cls, text)
                continue
            h = run_case(variant(case, o))
            if out is not None:
                note(out, h)
                if prop == "D07":
                    out.count("fault:other random seeds, pid and clock (sessions)")
                else:
                    out.count("fault:messages cut into pieces (sessions)")
                    for k in ("segr", "segw", "eintr"):
                        if o["plan"].get(k):
                            out.count({"segr": "fault:reads cut into pieces (sessions)", "segw": "fault:writes cut into pieces (sessions)", "eintr": "fault:interrupted calls (sessions)"}[k])
            if h.dead:
                res.setdefault("server process " + h.dead[0], f"exit code {h.dead[1]} under {json.dumps(o)}")
                continue
            got = said(h)
            d = differ(case, want, got)
            if d:
                res.setdefault("session differs: " + d[0], f"the same session under {json.dumps(o)}:\n" + d[1])
            elif heard != ext_heard(h):
                a, b = next(((x, y) for x, y in zip(heard, ext_heard(h)) if x != y), (len(heard), len(ext_heard(h))))
                res.setdefault("session differs: extension", f"the extension was told something else under {json.dumps(o)}:\n{clip2(b)}\ninstead of {clip2(a)}")
        return base, sorted(res.items())
    return f


def clip2(s, n=700):
    s = str(s)
    return s if len(s) <= n else s[:n // 2] + " ... " + s[-n // 2:]


def differ(case, want, got):
    for (i, a), (j, b) in zip(want, got):
        if i != j or a != b:
            op = case["script"][i][:3] if 0 <= i < len(case["script"]) else "initialize"
            x = [m for m in a if m not in b] or a
            y = [m for m in b if m not in a] or b
            what = op[0] if op[0] != "req" else op[2]
            return what, f"after {clip2(json.dumps(op), 300)} the editor received\n{clip2(y)}\ninstead of\n{clip2(x)}"
    if len(want) != len(got):
        return "length", f"{len(got)} steps instead of {len(want)}"


READS = {"open", "read", "opendir", "readdir", "mmap"}


def failed_read(case, how, want, out):
    """Reading fails at one point: what is said afterwards is what would be said with the file complete, or
    with a file that cannot be read at all, never something derived from a part of it."""
    errno_, pick, seg = how
    log = case["dir"] + ".side/steps"
    plan = {"log": log, "segr": seg, "seed": 5}
    h = run_case(dict(case, plan=plan))
    if h.dead or [x[1] for x in said(h)] != [x[1] for x in want]:
        return [] if not h.dead else [("server process " + h.dead[0], f"exit code {h.dead[1]}")]
    steps, opened = [], {}
    last = {}
    for line in open(log, errors="replace"):
        w = line.split()
        if w and w[0] == "step" and w[3] == "open":
            last[w[4]] = int(w[1])
        if w and w[0] == "step" and w[2] == "read" and "config" not in w[4] and "/bin/" not in w[4]:
            steps.append((int(w[1]), w[4]))
            opened[int(w[1])] = last.get(w[4], int(w[1]))
    if not steps:
        return []
    n, path = steps[pick % len(steps)]
    first = min(k for k, p in steps if p == path)
    bad = run_case(dict(case, plan=dict(plan, faults=[[n, "err", errno_]])))
    none = run_case(dict(case, plan=dict(plan, sticky=[[1, "read", errno_]])))
    shut = run_case(dict(case, plan=dict(plan, faults=[[opened[n], "err", errno_]])))
    if out is not None:
        out.count("fault:read error (sessions)")
        note(out, bad)
    for x in (bad, none, shut):
        if x.dead:
            return [("server process " + x.dead[0], f"exit code {x.dead[1]} when reading fails at step {n}")]
    for (i, w), (_, g), (_, z), (_, y) in zip(want, said(bad), said(none), said(shut)):
        if g != w and g != z:
            known = [x for m in w + z + y for x in pieces(m)]
            mixed = [x for m in g for x in pieces(m) if x not in known]
            if not mixed:
                continue
            op = case["script"][i][:3] if 0 <= i < len(case["script"]) else "initialize"
            return [("partial input used", f"reading {path.replace(case['dir'], '$ROOT')} fails at step {n} (the file's reads begin at {first})\nafter {clip2(json.dumps(op), 300)} the editor received\n{clip2(mixed)}\n"
                     f"with the whole file: {clip2(w)}\nwith no readable file: {clip2(z)}")]
    return []


def pieces(m):
    """The items a message consists of."""
    m = json.loads(m)
    b = (m.get("params") or {}).get("diagnostics") if "method" in m else m.get("result")
    if isinstance(b, dict) and isinstance(b.get("items"), list):
        b = b["items"]
    if not isinstance(b, list):
        return [] if b is None else [json.dumps(b, ensure_ascii=False)]
    return [json.dumps(x, ensure_ascii=False) for x in b]


def shrink_same(case):
    for k in range(len(case["others"])):
        if len(case["others"]) > 1:
            yield dict(case, others=case["others"][:k] + case["others"][k + 1:])
    for c in shrink(case):
        yield c


def combine(prop, cli, sessions):
    """One check of both parts: run numbers below `sessions` are editor sessions, the rest the tool's."""
    def work(i, out):
        n = sessions[TIER_()]
        if i >= n:
            return cli.work(i - n, out)
        case = gen(prop, i, Rng(prop, "session", SEED, i))
        h, bad = judge(prop)(case, out)
        out.count("runs", 1 + len(case["others"]))
        for cls, text in bad:
            out.violation(cls, text, case)
        if i == 0:
            out.samples.append({"script": case["script"][:6], "others": case["others"]})
        clean(case)

    def recheck(case):
        if "others" not in case:
            return cli.recheck(case)
        try:
            return judge(prop)(case)[1]
        finally:
            clean(case)

    def smaller(case):
        yield from (shrink_same(case) if "others" in case else cli.shrink(case))

    def prepare():
        build_cli()
        build_lsp()

    runs = {k: cli.runs[k] + sessions[k] for k in sessions}
    comps = {"real": cli.components["real"] + COMPONENTS["real"], "stub": cli.components["stub"] + COMPONENTS["stub"], "patched": COMPONENTS["patched"]}
    return Check(prop, work, recheck, runs, shrink=smaller,
                 rule=cli.rule + "; and seeded editor sessions, each repeated " + ("under other hash seeds, process ids and clocks" if prop == "D07" else "with other segmentation of every stream and file, interruptions, and a failing read"),
                 components=comps, prepare=prepare, assumptions=cli.assumptions)


def TIER_():
    import common
    return common.TIER


def clean(case):
    shutil.rmtree(case["dir"], ignore_errors=True)
    shutil.rmtree(case["dir"] + ".side", ignore_errors=True)
