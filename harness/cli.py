"""Runs the real styx executable under the preloaded simulated operating system."""
import errno, os, resource, signal, subprocess, time
import disk
from common import *

CRASH_EXIT = 86


class Plan:
    def __init__(self, root, **kw):
        self.d = {"root": root, "log": "", "std": 1, "segr": 0, "segw": 0, "eintr": 0, "seed": 1,
                  "entropy": 7, "pid": 4242, "time": 1700000000, "denyspawn": 1}
        self.faults = []
        self.sticky = []
        self.d.update(kw)

    def text(self):
        s = "".join(f"{k} {v}\n" for k, v in self.d.items())
        for n, kind, v in self.faults:
            s += f"fault {n} {kind} {v}\n"
        for n, cls, e in self.sticky:
            s += f"sticky {n} {cls} {e}\n"
        return s


class Result:
    pass


def run(args, root, plan, stdin=b"", env=None, cwd=None, memlimit=None, program=None, timeout=60):
    """One execution. Everything it may change lies below `root`."""
    side = root + ".side"
    os.makedirs(side, exist_ok=True)
    log = os.path.join(side, "log")
    if os.path.exists(log):
        os.unlink(log)
    plan.d["log"] = log
    pf = os.path.join(side, "plan")
    with open(pf, "w") as f:
        f.write(plan.text())
    e = {"PATH": "/nonexistent", "HOME": root + "/home", "XDG_CACHE_HOME": root + "/cache",
         "XDG_CONFIG_HOME": root + "/config", "TMPDIR": root + "/tmp", "LANG": "C.UTF-8",
         "LD_PRELOAD": PRELOAD, "SIMOS_PLAN": pf, "RUST_BACKTRACE": "0"}
    e.update(env or {})

    def limit():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if memlimit:
            resource.setrlimit(resource.RLIMIT_AS, (memlimit, memlimit))

    t = time.time()
    p = subprocess.Popen([program or STYX] + args, cwd=cwd or root, env=e, stdin=subprocess.PIPE,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         preexec_fn=limit if memlimit else None)
    r = Result()
    r.timeout = False
    try:
        r.out, r.err = p.communicate(stdin, timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        r.out, r.err = p.communicate()
        r.timeout = True
    r.wall = time.time() - t
    r.code = p.returncode
    try:
        with open(log) as f:
            text = f.read()
    except OSError:
        text = ""
    r.log = text
    r.steps, r.faults, r.ops, r.escapes = disk.parse_log(text)
    if not r.steps and r.code == 125:
        raise HarnessError("the simulator did not start")
    return r


def tree_of(root, skip=()):
    """Everything below root: path -> (kind, contents/target, mode)."""
    d = {}
    import stat
    for dp, dns, fns in os.walk(root):
        dns.sort()
        for n in dns + fns:
            p = os.path.join(dp, n)
            rel = os.path.relpath(p, root)
            if any(rel == s or rel.startswith(s + "/") for s in skip):
                continue
            st = os.lstat(p)
            if stat.S_ISLNK(st.st_mode):
                d[rel] = ("l", os.readlink(p), 0)
            elif stat.S_ISDIR(st.st_mode):
                d[rel] = ("d", "", stat.S_IMODE(st.st_mode))
            elif stat.S_ISREG(st.st_mode):
                with open(p, "rb") as f:
                    d[rel] = ("f", f.read(), stat.S_IMODE(st.st_mode))
            else:
                d[rel] = ("s", "", 0)
    return d


def build_tree(root, spec):
    """spec: list of (kind, relpath, content/target, mode)."""
    fresh_dir(root)
    for kind, rel, content, mode in spec:
        p = os.path.join(root, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if kind == "d":
            os.makedirs(p, exist_ok=True)
        elif kind == "l":
            os.symlink(content, p)
        elif kind == "h":
            os.link(os.path.join(root, content), p)
        else:
            data = content if isinstance(content, bytes) else content.encode("utf-8", "surrogateescape")
            with open(p, "wb") as f:
                f.write(data)
            os.chmod(p, mode)


def remove_tree(root):
    for p in (root, root + ".side"):
        if p.startswith(SCRATCH + "/"):
            shutil.rmtree(p, ignore_errors=True)


# ----------------------------------------------------------------------------- fault choices
E = errno
HARD = {
    "read": [E.EIO, E.EISDIR],
    "write": [E.ENOSPC, E.EIO, E.EDQUOT, E.EFBIG],
    "meta": [E.EIO, E.ENOSPC, E.EACCES, E.EROFS],
    "sync": [E.EIO, E.ENOSPC],
    "open": [E.EACCES, E.EMFILE, E.EIO, E.ENFILE],
    "stat": [E.EACCES, E.EIO],
    "stdout": [E.EPIPE, E.ENOSPC, E.EIO],
    "stdin": [E.EIO],
    "spawn": [E.ENOENT, E.EAGAIN, E.EACCES],
}
SOFT = {"read", "write", "open", "stdin", "stdout"}


def describe(text, root):
    if isinstance(text, bytes):
        text = text.decode("utf-8", "replace")
    return text.replace(root, "$ROOT")


def clip(b, n=160):
    s = b if isinstance(b, str) else b.decode("utf-8", "replace")
    return s if len(s) <= n else s[:n // 2] + f"...({len(s)})..." + s[-n // 2:]
