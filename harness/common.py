"""Shared machinery: seeds, builds, parallel runs, minimising, replay files, evidence."""
import hashlib, json, multiprocessing, os, random, shutil, subprocess, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("STYX_REPO", "/repo")
TARGET = os.environ.get("STYX_TARGET", os.path.join(VERIF, "target"))
SCRATCH = "/tmp/styxsim"
REPLAYS = os.path.join(VERIF, "replays")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
JOBS = int(os.environ.get("STYXSIM_JOBS", "0")) or min(8, os.cpu_count() or 1)


class Rng(random.Random):
    """The only source of choices; seeded by strings, so every run has its own stream."""

    def __init__(self, *parts):
        super().__init__(int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:8], "big"))

    def below(self, n):
        return self.randrange(n) if n > 0 else 0

    def chance(self, percent):
        return self.randrange(100) < percent

    def pick(self, xs):
        return xs[self.randrange(len(xs))]

    def some(self, xs, n):
        """At most n of them, in any order."""
        return self.sample(xs, min(n, len(xs)))

    def weighted(self, pairs):
        total = sum(w for _, w in pairs)
        x = self.randrange(total)
        for v, w in pairs:
            if x < w:
                return v
            x -= w


class HarnessError(Exception):
    pass


# --------------------------------------------------------------------------------------- build
def cargo(args, env=None):
    e = dict(os.environ)
    e.pop("LD_PRELOAD", None)
    e.update({"CARGO_PROFILE_DEV_DEBUG": "0", "CARGO_INCREMENTAL": "0", "CARGO_NET_OFFLINE": "true",
              "CARGO_TERM_COLOR": "never"})
    e.update(env or {})
    e.pop("RUSTC_WRAPPER", None)
    r = subprocess.run(["cargo", "build", "--offline", "--quiet"] + args, env=e, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-6000:])
        raise HarnessError("build failed: cargo " + " ".join(args))


def build_cli():
    """The real styx executable from /repo's working tree, the preloadable simulator, the helpers."""
    lock = os.path.join(REPO, "Cargo.lock")
    before = open(lock, "rb").read()
    cargo(["--manifest-path", os.path.join(REPO, "Cargo.toml"), "-p", "styx-cli", "-p", "styx-wasm", "--bin", "styx",
           "--target-dir", os.path.join(TARGET, "styx")])
    cargo(["--manifest-path", os.path.join(VERIF, "sim/Cargo.toml"), "-p", "preload", "-p", "helper",
           "--target-dir", os.path.join(TARGET, "sim")])
    if open(lock, "rb").read() != before:
        open(lock, "wb").write(before)


def build_lsp():
    """The language server from /repo's working tree with the hooks on, linked into the simulator."""
    cargo(["--manifest-path", os.path.join(VERIF, "lspsim/Cargo.toml"),
           "--target-dir", os.path.join(TARGET, "lspsim")], {"RUSTFLAGS": "--cfg styx_sim"})


STYX = os.path.join(TARGET, "styx/debug/styx")
PRELOAD = os.path.join(TARGET, "sim/debug/libpreload.so")
HELPER = os.path.join(TARGET, "sim/debug/helper")
LSPSIM = os.path.join(TARGET, "lspsim/debug/lspsim")


# ------------------------------------------------------------------------------------- running
class Outcome:
    """What one simulated run contributes: violations, counters and distinct states."""

    def __init__(self):
        self.violations = []  # (class, text, case)
        self.counts = {}
        self.states = set()
        self.samples = []

    def count(self, key, n=1):
        self.counts[key] = self.counts.get(key, 0) + n

    def state(self, *key):
        self.states.add(hashlib.blake2b(repr(key).encode(), digest_size=8).digest())

    def violation(self, cls, text, case):
        self.violations.append((cls, text, case))


_WORK = None


def _call(i):
    out = Outcome()
    t = time.time()
    try:
        _WORK(i, out)
    except Exception:
        return i, out, traceback.format_exc(), time.time() - t
    return i, out, None, time.time() - t


def limit_memory():
    """What the code under test can take before its allocations fail: the sandbox has no swap."""
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def run_parallel(work, n, deadline, on_result=None):
    """work(i, outcome) for i in 0..n on all cores; stops starting new ones after the deadline."""
    global _WORK
    _WORK = work
    total = Outcome()
    done = 0
    errors = []
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(JOBS, limit_memory) as pool:
        pending = []
        it = iter(range(n))

        def feed():
            while len(pending) < JOBS * 3 and time.time() < deadline:
                try:
                    i = next(it)
                except StopIteration:
                    return
                pending.append(pool.apply_async(_call, (i,)))

        feed()
        while pending:
            r = pending.pop(0)
            i, out, err, dt = r.get()
            feed()
            done += 1
            if err:
                errors.append((i, err))
                if len(errors) > 3:
                    break
                continue
            for k, v in out.counts.items():
                total.count(k, v)
            total.states |= out.states
            if len(total.samples) < 4:
                total.samples += out.samples[:2]
            total.violations += [(c, t, case, i) for (c, t, case) in out.violations]
            if len({v[0] for v in total.violations}) >= 12 or len(total.violations) > 60:
                deadline = 0
        if errors:
            pool.terminate()
    if errors:
        raise HarnessError(f"run {errors[0][0]}: {errors[0][1]}")
    total.done = done
    return total


def fresh_dir(path):
    if not path.startswith(SCRATCH + "/"):
        raise HarnessError("scratch path " + path)
    shutil.rmtree(path, ignore_errors=True)
    os.makedirs(path)
    return path


# ----------------------------------------------------------------------------- known findings
def known_findings(prop):
    res = []
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: "):
                # known: property=<id> class=<class> <description>
                parts = line.split(" ", 3)
                if parts[1] == "property=" + prop:
                    res.append((parts[2].split("=", 1)[1], parts[3]))
    return res


class Check:
    """One property's check: `work(i, out)` is one simulated case, `recheck(case)` re-executes a
    recorded case and returns the list of (class, text) violations it shows."""

    def __init__(self, prop, work, recheck, runs, shrink=None, rule="", components=None, budget=None,
                 level="exploration", assumptions=None, prepare=None, finish=None):
        self.prop, self.work, self.recheck, self.runs = prop, work, recheck, runs
        self.shrink, self.rule, self.components = shrink, rule, components or {}
        self.budget = budget or {"quick": 150, "thorough": 3000}
        self.level, self.assumptions = level, assumptions or []
        self.prepare, self.finish = prepare, finish

    def minimise(self, cls, case, budget_s=40):
        """Greedy shrinking: keep a smaller case while it still shows the same class."""
        end = time.time() + budget_s
        improved = True
        while improved and self.shrink and time.time() < end:
            improved = False
            for cand in self.shrink(case):
                if time.time() > end:
                    break
                try:
                    res = self.recheck(cand)
                except HarnessError:
                    continue
                if any(c == cls for c, _ in res):
                    case = cand
                    improved = True
                    break
        return case

    def run(self):
        t0 = time.time()
        if self.prepare:
            self.prepare()
        tb = time.time()
        n = self.runs[TIER] if isinstance(self.runs, dict) else self.runs
        n = int(os.environ.get("STYXSIM_RUNS", "0")) or n
        total = run_parallel(self.work, n, tb + self.budget[TIER])
        wall = time.time() - tb
        if self.finish:
            self.finish(total)
        known = known_findings(self.prop)
        new = [v for v in total.violations if not any(v[0] == k for k, _ in known)]
        status = 0
        seen = set()
        reported = 0
        for cls, text, case, i in new:
            if cls in seen:
                continue
            seen.add(cls)
            reported += 1
            if reported > 5:
                continue
            small = self.minimise(cls, case, 25 if reported > 1 else 60)
            res = self.recheck(small)
            res = [r for r in res if r[0] == cls] or [(cls, text)]
            os.makedirs(REPLAYS, exist_ok=True)
            h = hashlib.sha256(json.dumps([cls, small], sort_keys=True).encode()).hexdigest()[:10]
            path = os.path.join(REPLAYS, f"{self.prop}-{h}.json")
            with open(path, "w") as f:
                json.dump({"property": self.prop, "class": cls, "what": res[0][1], "seed": SEED,
                           "run": i, "case": small}, f, indent=1, sort_keys=True)
            print(f"VIOLATION property={self.prop} replay={path}")
            print(f"  class {cls}; seed {SEED} run {i}; reproduce with ./check replay {path}")
            for line in res[0][1].splitlines()[:30]:
                print("  " + line)
            status = 1
        for k, d in known:
            print(f"KNOWN-FINDING: property={self.prop} {d}")
        counts = dict(sorted(total.counts.items()))
        faults = {k[6:]: v for k, v in counts.items() if k.startswith("fault:")}
        reach = {k[6:]: v for k, v in counts.items() if k.startswith("reach:")}
        runs = counts.get("runs", total.done)
        cov = {
            "evaluations": runs,
            "distinct_nontrivial": len(total.states),
            "rule": self.rule,
            "samples": [json.loads(json.dumps(s)) for s in total.samples[:4]] or ["none"],
            "cases": total.done,
            "seeds": total.done,
            "runs_per_hour": int(runs / max(wall, 0.001) * 3600),
            "seeds_per_hour": int(total.done / max(wall, 0.001) * 3600),
            "simulated_time_s": round(counts.get("sim_ms", 0) / 1000.0, 3),
            "faults_injected": faults,
            "reach": reach,
            "steps": counts.get("steps", 0),
            "components": self.components,
        }
        ev = {"property": self.prop, "tier": TIER, "seed": SEED, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - t0, 2),
              "violations": len(new)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if runs == 0:
            raise HarnessError("nothing was explored")
        print(f"{self.prop}: {runs} simulated runs from {total.done} seeds, {len(total.states)} distinct states, "
              f"{sum(faults.values())} faults, {wall:.1f}s (+{tb - t0:.1f}s build), "
              f"{'VIOLATED' if status else 'held'}")
        return status

    def replay(self, path):
        if self.prepare:
            self.prepare()
        limit_memory()
        rec = json.load(open(path))
        res = self.recheck(rec["case"])
        for c, t in res:
            print(f"VIOLATION property={self.prop} replay={path}")
            print(f"  class {c}")
            for line in t.splitlines()[:60]:
                print("  " + line)
        if not res:
            print("replay: no violation")
        return 1 if res else 0
