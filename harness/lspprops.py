"""E01, E02, E05: answers and diagnostics of one long, seeded editing session."""
from lsprun import *

PREFIX = "textDocument/"


def healthy(r):
    """An extension that always answers in time."""
    b = {}
    if r.chance(50):
        b["handshake_ms"] = r.pick([1, 30, 500, 2500])
    if r.chance(50):
        b["init_ms"] = r.pick([1, 30, 500, 2500])
    if r.chance(75):
        lo = r.pick([0, 0, 1, 20, 200])
        b["delay"] = [lo, lo + r.pick([0, 3, 50, 600])]
    if r.chance(50):
        b["callbacks"] = r.pick([20, 60, 100])
    if r.chance(50):
        b["pipe"] = r.pick([{"delay": [0, 4]}, {"seg": 9}, {"seg": 1}, {"spurious": 30}, {"delay": [0, 60], "seg": 200}, {"cap": 256}])
    return b


def faulty(r):
    """One of the ways an extension can go wrong."""
    b = healthy(r)
    k = r.below(16)
    if k == 0:
        b["spawn_err"] = True
    elif k == 1:
        b["handshake"] = r.pick(["never", "exit", "garbage"])
    elif k == 2:
        b["init"] = r.pick(["never", "exit"])
    elif k == 3:
        b["handshake_ms"] = r.pick([9000, 9990, 11000, 60000])
    elif k == 4:
        b["init_ms"] = r.pick([9000, 11000, 60000])
    elif k in (5, 6):
        b["delay"] = [r.pick([4000, 4900, 5000, 6000]), r.pick([5100, 20000, 100000])]
        b["delay"].sort()
    elif k in (7, 8):
        b["never"] = r.pick([10, 50, 100])
    elif k in (9, 10):
        b["die_after"] = 1 + r.below(8)
        b["die_when"] = r.pick(["early", "late"])
    elif k == 11:
        b["garbage_after"] = 1 + r.below(8)
    elif k in (12, 13):
        b["stall_after"] = 1 + r.below(8)
    elif k == 14:
        b["hostile"] = 100
    else:
        b["callbacks"] = 100
        b["never"] = 30
    if r.chance(25):
        b["stubborn"] = True
    return b


def session_case(prop, i, r, faults=False, edits=20, requests=45, n=None, allow=100):
    w = G.gen_workspace(r, ext=75 if not faults else 95)
    progs = [f"prog{k}" for k in range(len(w["schemas"]))]
    exts = {}
    for p in progs:
        exts[p] = [faulty(r) if faults and r.chance(80) else healthy(r) for _ in range(2)] if faults else [healthy(r)]
    for p in progs:
        if any("hostile" in b for b in exts[p]):
            for b in exts[p]:
                b["hostile"] = 100
    files = dict(w["files"])
    allowed = progs if r.chance(allow) else [p for p in progs if r.chance(40)]
    files["config/styx/config.styx"] = G.config_text(allowed)
    uris = [G.uri_of(d[0]) for d in w["docs"]]
    case = {"dir": f"{SCRATCH}/{prop}-{i}", "files": files, "seed": 1 + r.below(1 << 30), "in": r.pick(PIPES), "out": r.pick(PIPES), "exts": exts,
            "uris": uris, "reply_ms": r.pick([0, 0, 5, None]), "pause": r.pick([0, 10, 40, 90]), "allowed": sorted(allowed)}
    sc = lambda s: w["schemas"][s] if isinstance(s, int) else None
    text, ver, script = {}, {}, []
    nid = 100
    schema_of = dict(w["docs"])

    def content(p):
        s = schema_of[p]
        if s == "schema":
            return files[p]
        return G.gen_doc(r, sc(s))

    def open_(p):
        text[p] = content(p)
        ver[p] = r.pick([1, 1, 0, 5, 100])
        script.append(["open", p, text[p], ver[p]])

    for p, _ in w["docs"]:
        if r.chance(85) or not text:
            open_(p)
    if r.chance(50):
        script.append(["wait", r.pick([1, 50, 1000, 6000])])
    n = n or r.pick([10, 20, 35, 60])
    for _ in range(n):
        k = r.weighted([("edit", edits), ("req", requests), ("wait", 8), ("yield", 5), ("cancel", 4), ("close", 3), ("action", 4), ("burst", 3), ("stall", 1), ("reopen", 2), ("across", 4), ("crowd", 0 if faults else 1),
                        ("rewrite", 0 if faults else 2), ("allow", 2 if len(allowed) < len(progs) else 0)])
        p = r.pick(sorted(schema_of)) if not text or r.chance(6) else r.pick(sorted(text))
        if k in ("edit", "burst"):
            if p not in text:
                open_(p)
                continue
            for _ in range(1 if k == "edit" else 2 + r.below(6)):
                s = schema_of[p]
                if s == "schema":
                    text[p] = files[p] if r.chance(30) else G.mutate(r, text[p], None, [])
                else:
                    text[p] = G.mutate(r, text[p], sc(s), [x for x in w["schemas"]])
                ver[p] += r.pick([1, 1, 1, 2, 7])
                script.append(["change", p, text[p], ver[p]])
                if k == "burst" and r.chance(40):
                    script.append(["yield", 1 + r.below(6)])
        elif k == "reopen" and p in text:
            # Closed and opened again, with a version number that was used before.
            old = text[p]
            ask = r.pick([m for m, _ in G.METHODS])
            nid += 1
            script.append(["req", nid, PREFIX + ask, G.gen_params(r, ask, G.uri_of(p), old)])
            if r.chance(60):
                script.append(["wait", r.pick([1, 50, 1500])])
            script.append(["close", p])
            if r.chance(40):
                script.append(["wait", r.pick([1, 50, 1500])])
            text[p] = r.pick([same_size(r, old), same_size(r, old), G.mutate(r, old, sc(schema_of[p]) if schema_of[p] != "schema" else None, [])])
            script.append(["open", p, text[p], ver[p]])
            nid += 1
            script.append(["req", nid, PREFIX + ask, G.gen_params(r, ask, G.uri_of(p), text[p])])
        elif k == "across" and p in text:
            # A request that looks at several documents, and changes to all of them right behind it.
            m = r.pick(["definition", "references", "definition", "references", "hover", "codeAction"])
            p = next((x for x in sorted(text) if schema_of[x] == "schema" and r.chance(60)), p)
            nid += 1
            script.append(["req", nid, PREFIX + m, at_key(r, G.gen_params(r, m, G.uri_of(p), text[p]), text[p])])
            for q in [p] + r.some(sorted(x for x in text if x != p), 2):
                if schema_of[q] == "schema" and q != p:
                    continue
                text[q] = shifted(r, text[q])
                ver[q] += 1
                script.append(["change", q, text[q], ver[q]])
                if r.chance(30):
                    script.append(["yield", 1 + r.below(3)])
        elif k == "crowd" and p in text:
            # Many requests in one go, then a document comes or changes, and somebody looks at it.
            m = r.pick(["hover", "completion", "inlayHint", "documentSymbol", "hover"])
            g = at_key(r, G.gen_params(r, m, G.uri_of(p), text[p]), text[p])
            for _ in range(r.pick([15, 25, 33, 34, 45, 70])):
                nid += 1
                script.append(["req", nid, PREFIX + m, g])
            if r.chance(40):
                script.append(["wait", r.pick([1, 40, 700])])
            for q in r.some(sorted(schema_of), 2) or [p]:
                if q in text:
                    if r.chance(30):
                        script.append(["close", q])
                        open_(q)
                    else:
                        text[q] = G.mutate(r, text[q], None, []) if schema_of[q] == "schema" else content(q)
                        ver[q] += 1
                        script.append(["change", q, text[q], ver[q]])
                else:
                    open_(q)
                m = r.pick(["documentSymbol", "formatting", "semanticTokens/full", "hover"])
                nid += 1
                script.append(["req", nid, PREFIX + m, at_key(r, G.gen_params(r, m, G.uri_of(q), text[q]), text[q])])
        elif k == "rewrite":
            # The schema on disk changes while everything is at rest, and then somebody looks.
            q = r.below(len(w["schemas"]))
            if "file" not in w["schemas"][q]:
                continue
            new = dict(G.gen_schema(r, q, w["schemas"][q]["launch"]), file=w["schemas"][q]["file"])
            path = f"w/s{q}.styx"
            if r.chance(85):
                w["schemas"][q] = new
            script += [["wait", 15000], ["write", path, G.schema_text(new) if w["schemas"][q] is new else r.pick(["", "schema {", "meta {id x}\n", G.schema_text(new)[:-3]])]]
            for x in sorted(text):
                if r.chance(70):
                    m = r.pick(["hover", "completion", "definition", "inlayHint", "codeAction"])
                    nid += 1
                    script.append(["req", nid, PREFIX + m, at_key(r, G.gen_params(r, m, G.uri_of(x), text[x]), text[x])])
                if r.chance(60):
                    if schema_of[x] != "schema" and r.chance(60):
                        text[x] = content(x)
                    ver[x] += 1
                    script.append(["change", x, text[x], ver[x]])
        elif k == "close":
            if p in text and (len(text) > 1 or r.chance(30)):
                script.append(["close", p])
                del text[p]
            elif p not in text:
                open_(p)
        elif k == "req":
            m = r.weighted(G.METHODS)
            nid += 1
            script.append(["req", nid, PREFIX + m, G.gen_params(r, m, G.uri_of(p), text.get(p, ""))])
        elif k == "action":
            nid += 1
            g = G.gen_params(r, "codeAction", G.uri_of(p), text.get(p, ""))
            script.append(["action", nid, p, {"range": g["range"]}])
        elif k == "cancel":
            if nid > 100:
                script.append(["cancel", nid - r.below(min(4, nid - 100))])
        elif k == "allow":
            nid += 1
            script.append(["allow", nid, r.pick(progs)])
        elif k == "wait":
            script.append(["wait", r.pick([1, 1, 3, 20, 200, 1500, 12000] if faults else [1, 1, 3, 20, 200, 1500])])
        elif k == "stall":
            script += [["stall", True], ["wait", r.pick([5, 300, 4000])], ["stall", False]]
        else:
            script.append(["yield", 1 + r.below(12)])
    case["script"] = script + [["wait", 90000]]
    if faults:
        # Whatever happened, the server still serves.
        for p in sorted(text):
            for m in ("documentSymbol", "formatting", "hover"):
                nid += 1
                case["script"].append(["req", nid, PREFIX + m, G.gen_params(r, m, G.uri_of(p), text[p])])
        case["script"].append(["wait", 70000])
    return case


def same_size(r, text):
    """Another text of the same length in which the same lines mean something else."""
    ls = text.split("\n")
    if len(ls) > 2 and r.chance(60):
        r.shuffle(ls)
        return "\n".join(ls)
    return "".join(r.pick("xyz{}\" ") if c.isalpha() and c.isascii() and r.chance(10) else c for c in text)


def shifted(r, text):
    """The same entries somewhere else."""
    return r.pick(["// moved\n", "\n", "\n\n", "zz 1\n"]) + text if not text.startswith("@schema") or r.chance(50) else text.replace("\n", "\n\n", 1)


def at_key(r, p, text):
    """Put the position on a key, where there is something to be found."""
    if "position" in p and r.chance(80):
        ls = text.split("\n")
        n = [i for i, x in enumerate(ls) if x.strip() and x.strip()[0].isalpha()]
        if n:
            l = r.pick(n)
            p["position"] = {"line": l, "character": len(ls[l]) - len(ls[l].lstrip()) + r.below(2)}
    return p


def nonempty(a):
    return a[0] == "result" and a[1] not in (None, [], {}) and a[1] != {"data": []}


CANCELLED = -32800


def check_answers(h, fresh, out=None, only=None):
    """Every answer is a fresh server's answer for one state from the request on."""
    bad = []
    pend = {}                    # request id -> next candidate state
    cancelled = {op[1] for i, op in enumerate(h.case["script"]) if op[0] == "cancel" and i in h.sent}
    for i, q in h.reqs.items():
        if not q["method"].startswith(PREFIX) or i not in h.resp:
            continue
        m = h.resp[i][0][2]
        if i in cancelled and "error" in m and m["error"].get("code") == CANCELLED:
            continue
        pend[i] = h.at(q["n"])
    first = dict(pend)
    seen = {i: [] for i in pend}
    while pend:
        groups = {}
        for i, k in pend.items():
            groups.setdefault(k, []).append(i)
        nxt = {}
        for k, ids in sorted(groups.items()):
            left = ids
            for mode in ("with", "without"):
                if not left:
                    break
                ans = fresh.answers(h.states[k][1], [(i, h.reqs[i]["method"], h.reqs[i]["params"]) for i in left], mode, h.disks[k])
                keep = []
                for i in left:
                    a, want = body(h.resp[i][0][2]), body(ans[i])
                    if a == want:
                        if out:
                            mth = h.reqs[i]["method"][len(PREFIX):]
                            out.count(f"reach:{mth} " + ("non-empty" if nonempty(a) else "empty"))
                            if k > first[i]:
                                out.count("reach:answers for a later state")
                            if mode == "without":
                                out.count("reach:answers without the extension only")
                    else:
                        seen[i].append((k, mode, want))
                        keep.append(i)
                left = keep
            for i in left:
                m = h.resp[i][0][0]
                if k + 1 < len(h.states) and h.states[k + 1][0] <= m:
                    nxt[i] = k + 1
                else:
                    q = h.reqs[i]
                    bad.append((i, q, body(h.resp[i][0][2]), seen[i]))
        pend = nxt
    return bad


def show_bad(h, b):
    i, q, a, seen = b
    uri = q["params"]["textDocument"]["uri"]
    k = seen[0][0]
    text = h.states[k][1].get(uri, (None,))[0]
    s = f"{q['method']} (id {i}) {json.dumps({x: y for x, y in q['params'].items() if x != 'textDocument'})} on {uri}\n"
    s += f"answered {json.dumps(a, ensure_ascii=False)[:700]}\n"
    for kk, mode, want in (seen[:3] + seen[-2:]):
        s += f"a fresh server at state {kk} ({mode} extension) answers {json.dumps(want, ensure_ascii=False)[:700]}\n"
    s += f"text when it was sent: {text!r}"
    older = None
    return s


def steps_of(h, uri):
    """The life of a document: [(n, kind, text, version)]"""
    res = []
    for i, op in enumerate(h.case["script"]):
        if op[0] in ("open", "change", "close") and i in h.sent and subst(G.uri_of(op[1]), h.root) == uri:
            res.append((h.sent[i][0], op[0], op[2] if len(op) > 2 else None, op[3] if len(op) > 3 else None))
    return res


def consent_modes(h):
    """Whether every program may run from the start, or only some."""
    allprogs = set(h.case["exts"]) <= set(h.case["allowed"])
    return ["with", "without"] if allprogs else ["with", "without", "blocked"]


def check_diags(h, fresh, out=None):
    bad = []
    uris = sorted({u for _, d in h.states for u in d} | {p[2]["uri"] for p in h.pubs})
    allprogs = set(h.case["exts"]) <= set(h.case["allowed"])
    for uri in uris:
        steps = steps_of(h, uri)
        pos, order = -1, []
        pubs = [p for p in h.pubs if p[2]["uri"] == uri]
        for n, t, p in pubs:
            v, ds = p.get("version"), p["diagnostics"]
            found, close = None, []
            for k in range(max(pos, 0), len(steps)):
                sn, kind, text, ver = steps[k]
                if sn > n:
                    break
                if kind == "close":
                    if v is None and not ds:
                        found = k
                        break
                    continue
                if v != ver:
                    continue
                ok = False
                for mode in consent_modes(h):
                    want = fresh.diags(uri, text, ver, mode, h.disks[h.at(n)])
                    if want == ds:
                        ok = True
                        break
                    close.append((ver, mode, want))
                if ok:
                    found = k
                    break
            if found is None:
                older = [k for k in range(0, max(pos, 0)) if steps[k][3] == v and v is not None]
                cls = "goes back to an older state" if older and not close else "not those of the version's text" if close else "of no version that was sent"
                s = f"published for {uri} version {v}: {json.dumps(ds, ensure_ascii=False)[:600]}\n"
                for ver, mode, want in close[:3]:
                    s += f"a fresh server publishes for version {ver} ({mode} extension): {json.dumps(want, ensure_ascii=False)[:600]}\n"
                s += f"life of the document: {[(x[1], x[3]) for x in steps]}; published before: {[p[2].get('version') for p in pubs if p[0] < n]}"
                bad.append((cls, s))
                break
            pos = found
            order.append(found)
            if out:
                out.count("reach:published sets")
                if ds:
                    out.count("reach:published non-empty sets")
        else:
            if not steps:
                continue
            last = len(steps) - 1
            if steps[last][1] == "close":
                if pubs and (pubs[-1][2]["diagnostics"] or pubs[-1][2].get("version") is not None and any(p[2]["diagnostics"] for p in pubs)):
                    bad.append(("not cleared after close", f"{uri}: last published {json.dumps(pubs[-1][2], ensure_ascii=False)[:500]}"))
                elif out:
                    out.count("reach:cleared after close")
            elif not pubs or pubs[-1][2].get("version") != steps[last][3] or pubs[-1][0] < steps[last][0] or pos != last and pubs[-1][2]["diagnostics"] not in [
                    fresh.diags(uri, steps[last][2], steps[last][3], m, h.disks[h.at(pubs[-1][0])]) for m in consent_modes(h)]:
                bad.append(("final set missing", f"{uri}: the latest version is {steps[last][3]}, last published "
                            f"{pubs[-1][2].get('version') if pubs else None}; life {[(x[1], x[3]) for x in steps]}"))
            elif allprogs and not h.case.get("faults"):
                want = fresh.diags(uri, steps[last][2], steps[last][3], "with", h.disks[h.at(pubs[-1][0])])
                if pubs[-1][2]["diagnostics"] != want:
                    bad.append(("final set incomplete", f"{uri}: {json.dumps(pubs[-1][2]['diagnostics'], ensure_ascii=False)[:500]}\n"
                                f"a fresh server publishes {json.dumps(want, ensure_ascii=False)[:500]}"))
    return bad


def died(h):
    res = []
    if h.dead:
        res.append(("server died", f"the server's process {h.dead[0]} (status {h.dead[1]})"))
    for e in h.of("panic"):
        res.append(("panic", f"{e['why']} at {e['at']}"))
        break
    return res


# ---------------------------------------------------------------------------------- the checks
def judge_e01(case, out=None):
    h = run_case(case)
    if out is not None:
        note(out, h)
    if h.dead:
        return h, died(h)
    fresh = Fresh(h)
    bad = check_answers(h, fresh, out)
    if out is not None:
        out.count("reach:fresh servers", fresh.sessions)
    res = {}
    for b in bad:
        res.setdefault(f"{b[1]['method']}", show_bad(h, b))
    return h, [(f"answer of no current state: {k}", v) for k, v in sorted(res.items())]


def judge_e02(case, out=None):
    h = run_case(case)
    if out is not None:
        note(out, h)
    if h.dead:
        return h, died(h)
    fresh = Fresh(h)
    res = {}
    for c, s in check_diags(h, fresh, out):
        res.setdefault(c, s)
    if out is not None:
        out.count("reach:fresh servers", fresh.sessions)
    return h, sorted(res.items())


LIMIT_MS = 60000
# The server gives up on a call after 5 s, which would end a deadlock with the question.
QUESTION_MS = 4000


def questions(h):
    """(question, time it took) while its process was neither dead nor silent."""
    bad, open_ = set(), {}
    for e in h.ev:
        if e["e"] == "host" and e["pid"] not in bad:
            open_[e["pid"], e["q"]] = e
        elif e["e"] in ("host_reply", "host_error") and (e["pid"], e["q"]) in open_:
            q = open_.pop((e["pid"], e["q"]))
            yield q, e["t"] - q["t"]
        elif e["e"] in ("garbage", "stall", "killed", "exit"):
            bad.add(e["pid"])
            for k in [k for k in open_ if k[0] == e["pid"]]:
                q = open_.pop(k)
                if e["e"] == "killed":
                    yield q, e["t"] - q["t"]
    for q in open_.values():
        yield q, h.ev[-1]["t"] - q["t"]


def silent(h, out=None):
    """(uri, version, t) of texts that stood for long and whose diagnostics took as long or never came."""
    end = h.ev[-1]["t"] if h.ev else 0
    times = dict(h.sent.values())
    for uri in sorted({u for _, d in h.states for u in d}):
        steps = steps_of(h, uri)
        for k, (n, kind, _, ver) in enumerate(steps):
            t = times[n]
            if kind == "close" or (times[steps[k + 1][0]] if k + 1 < len(steps) else end) - t < LIMIT_MS:
                continue
            if not any(p["uri"] == uri and p.get("version") == ver and m > n and at - t < LIMIT_MS for m, at, p in h.pubs):
                yield uri, ver, t
            elif out is not None:
                out.count("reach:texts that stood, and whose diagnostics came")


def inquisitive(case, r):
    """Extensions that work, but ask the server during every call, while the documents change."""
    for p in case["exts"]:
        case["exts"][p] = [{"callbacks": 100, "delay": [20, r.pick([30, 600, 2000])]}]
    opens = {o[1]: o for o in case["script"] if o[0] == "open"}
    script, nid, ver = [o for o in opens.values()] + [["wait", 8000]], 200, {p: o[3] for p, o in opens.items()}
    for _ in range(6 + r.below(10)):
        p = r.pick(sorted(opens))
        for _ in range(1 + r.below(2)):
            m = r.pick(["hover", "completion", "inlayHint", "codeAction", "definition"])
            nid += 1
            script.append(["req", nid, PREFIX + m, at_key(r, G.gen_params(r, m, G.uri_of(p), opens[p][2]), opens[p][2])])
        script.append(["wait", r.pick([1, 5, 20])])
        q = r.pick(sorted(opens))
        ver[q] += 1
        script.append(["change", q, shifted(r, opens[q][2]) if r.chance(40) else opens[q][2], ver[q]])
        script.append(["wait", r.pick([1, 100, 3000, 7000])])
    case["script"] = script + [["wait", 60000]]
    return case


def e05_case(i, r):
    case = session_case("E05", i, r, faults=True, edits=12, n=10 if i % 12 == 0 else None)
    if i % 12 in (3, 9):
        return inquisitive(case, r)
    if i % 12:
        return case
    # Many requests or keystrokes while the extension does not get anywhere.
    opens = [o for o in case["script"] if o[0] == "open"]
    for p in case["exts"]:
        if r.chance(75):
            case["exts"][p] = [dict(r.pick([{"never": 100}, {"delay": [4000, 9000]}, {"stall_after": 2}, {"handshake": "never"}, {"init": "never"}, {"init_ms": 60000}]), stubborn=True)]
    o = r.pick(opens)
    at = case["script"].index(o) + 1
    flood, ver = [], o[3]
    if r.chance(50):
        # Keystrokes, and questions in the end.
        text = o[2]
        for k in range(r.pick([120, 270, 300])):
            ver += 1
            flood.append(["change", o[1], text + f"\n// {k}", ver])
            if r.chance(3):
                flood.append(["wait", r.pick([1, 30])])
        case["script"] = [x for x in case["script"][:at] if x[0] == "open"] + flood
        for k in range(4):
            m = r.pick(["hover", "formatting", "documentSymbol", "completion"])
            case["script"].append(["req", 5000 + k, PREFIX + m, G.gen_params(r, m, G.uri_of(o[1]), text)])
        case["script"].append(["wait", 80000])
    else:
        for k in range(r.pick([30, 60, 110])):
            m = r.pick(["hover", "completion", "inlayHint", "codeAction", "definition", "hover"])
            flood.append(["req", 5000 + k, PREFIX + m, at_key(r, G.gen_params(r, m, G.uri_of(o[1]), o[2]), o[2])])
        if r.chance(70):
            flood.insert(0, ["wait", r.pick([50, 3000, 12000])])
        case["script"][at:at] = flood
    return case


def judge_e05(case, out=None):
    h = run_case(case)
    if out is not None:
        note(out, h)
    if h.dead:
        return h, died(h)
    res = {}
    for i, q in h.reqs.items():
        if i == 0:
            continue
        r = h.resp.get(i)
        if not r:
            res.setdefault(f"no answer: {q['method']}", f"request {i} {q['method']} sent at {q['t']} ms was never answered")
        elif r[0][1] - q["t"] > LIMIT_MS:
            res.setdefault(f"late answer: {q['method']}", f"request {i} {q['method']} sent at {q['t']} ms was answered at {r[0][1]} ms")
        elif out is not None and r[0][1] - q["t"] > 1000:
            out.count("reach:answers after more than a second")
    for q, t in questions(h):
        if t > QUESTION_MS:
            res.setdefault("question blocked", f"process {q['pid']} asked {json.dumps(q['what'])} at {q['t']} ms while its call {q['id']} was in flight, and had no answer for {t} ms")
        elif out is not None:
            out.count("reach:questions answered while a request is in flight")
    for e in h.of("server_end"):
        res.setdefault("server ended", f"at {e['t']} ms without being asked to (ok {e['ok']}, panic {e['panic']})")
    for uri, ver, t in silent(h, out):
        res.setdefault("diagnostics blocked", f"version {ver} of {uri} was sent at {t} ms and stood for {LIMIT_MS} ms, in which its diagnostics were not published")
    fresh = Fresh(h)
    for b in check_answers(h, fresh, out):
        res.setdefault(f"answer neither with nor without: {b[1]['method']}", show_bad(h, b))
    if out is not None:
        out.count("reach:fresh servers", fresh.sessions)
    return h, sorted(res.items())


def sane(script):
    """No change or close of a document that is not open, no double open."""
    is_open, out = set(), []
    for op in script:
        if op[0] == "open":
            if op[1] in is_open:
                continue
            is_open.add(op[1])
        elif op[0] in ("change", "close"):
            if op[1] not in is_open:
                if op[0] == "close":
                    continue
                op = ["open"] + op[1:]
                is_open.add(op[1])
            elif op[0] == "close":
                is_open.discard(op[1])
        out.append(op)
    return out


def shrink(case):
    for c in cuts(case):
        if not case.get("wild"):
            c["script"] = sane(c["script"])
        yield c


def cuts(case):
    """Smaller cases, largest cuts first."""
    s = case["script"]
    n = len(s)
    tail = 1 if s and s[-1][0] == "wait" else 0
    size = max(1, (n - tail) // 2)
    while size >= 1:
        for a in range(0, n - tail, size):
            c = s[:a] + s[min(a + size, n - tail):]
            if len(c) < n:
                yield dict(case, script=c)
        if size == 1:
            break
        size //= 2
    for k in ("in", "out"):
        if case.get(k):
            yield dict(case, **{k: {}})
    if case.get("pause"):
        yield dict(case, pause=0)
    for p, bs in sorted(case.get("exts", {}).items()):
        for j, b in enumerate(bs):
            for f in sorted(b):
                c = [dict(x) for x in bs]
                del c[j][f]
                yield dict(case, exts=dict(case["exts"], **{p: c}))
            if len(bs) > 1:
                yield dict(case, exts=dict(case["exts"], **{p: bs[:j] + bs[j + 1:]}))
    used = json.dumps(case["script"])
    for f in sorted(case["files"]) if not case.get("keep") else []:
        if f not in ("config/styx/config.styx",) and f not in used:
            yield dict(case, files={k: v for k, v in case["files"].items() if k != f})
    for k, op in enumerate(s):
        if op[0] in ("open", "change") and len(op[2]) > 1:
            t = op[2]
            ls = t.split("\n")
            if len(ls) > 1:
                for j in range(len(ls)):
                    c = list(s)
                    c[k] = [op[0], op[1], "\n".join(ls[:j] + ls[j + 1:]), op[3]]
                    yield dict(case, script=c)


COMPONENTS = {
    "real": ["styx-lsp server, handlers, extension manager, stdio codec", "tower-lsp", "vox RPC stack", "tokio runtime (virtual clock)", "styx parser, validator, formatter"],
    "stub": ["editor (scripted, with a UTF-16 text model)", "extension processes (scripted; their RPC stack is real)", "operating-system processes, pipes, clock, entropy"],
    "patched": ["tokio 1.53.1: seeded pauses after lock grants and at task starts", "vox-phon: schema hashing fixed (see lspsim/vendor/vox-phon)"],
}


def make_session(prop, judge, gen, runs, rule, budget=None):
    def work(i, out):
        case = gen(i, Rng(prop, SEED, i))
        h, bad = judge(case, out)
        for cls, text in bad:
            out.violation(cls, text, case)
        if i < 2 and not out.samples:
            out.samples.append({"script": case["script"][:6], "exts": case.get("exts"), "events": len(h.ev)})
        shutil.rmtree(case["dir"], ignore_errors=True)
        shutil.rmtree(case["dir"] + ".side", ignore_errors=True)

    def recheck(case):
        h, bad = judge(case)
        shutil.rmtree(case["dir"], ignore_errors=True)
        shutil.rmtree(case["dir"] + ".side", ignore_errors=True)
        return bad

    return Check(prop, work, recheck, runs, shrink=shrink, rule=rule, components=COMPONENTS, prepare=build_lsp,
                 budget=budget or {"quick": 150, "thorough": 3000})


def e02_case(i, r):
    if r.chance(25):
        return dict(session_case("E02", i, r, faults=True, edits=45, requests=6, allow=70), faults=True)
    return session_case("E02", i, r, edits=45, requests=6, allow=70)


def make(prop):
    if prop == "E01":
        return make_session("E01", judge_e01, lambda i, r: session_case("E01", i, r), {"quick": 3000, "thorough": 100000},
                            "seeded editing sessions (1-3 documents, 1-3 schemas, healthy extensions, seeded pipe delays, segmentation, task pauses); each answer compared with fresh servers at every admissible state; distinct = distinct order of observable events")
    if prop == "E02":
        return make_session("E02", judge_e02, e02_case, {"quick": 3000, "thorough": 100000},
                            "seeded editing sessions; every published set mapped to one step of the document's life and compared with a fresh server's; distinct = distinct order of observable events")
    if prop == "E05":
        return make_session("E05", judge_e05, e05_case, {"quick": 3000, "thorough": 100000},
                            "seeded editing sessions with a faulty extension (slow, silent, crashing, stalling, garbage, calling back); every answer timed and compared with fresh servers with and without the extension; distinct = distinct order of observable events")
