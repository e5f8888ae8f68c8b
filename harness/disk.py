"""The simulated disk: what a power loss can leave behind, rebuilt from the operation log of a run.

Model.  Metadata operations (create, rename, unlink, mkdir, truncate, link, chmod, symlink) reach the
disk as a prefix of the order in which they were issued (a journal); fsync of a file makes its data and
all metadata operations issued before it durable; fsync of a directory makes the metadata operations
issued before it durable.  Data written since a file's last fsync may be there, absent, zeroed or cut
off at any point.
"""


class Disk:
    def __init__(self):
        self.ent = {}   # path -> ("f", ino) | ("d",) | ("l", target)
        self.data = {}  # ino -> bytes
        self.mode = {}  # ino -> mode

    def copy(self):
        d = Disk()
        d.ent, d.data, d.mode = dict(self.ent), dict(self.data), dict(self.mode)
        return d

    def resolve(self, path, depth=0):
        """The path with all symbolic links followed (it need not exist), or None for a loop."""
        import os
        if depth > 40:
            return None
        cur = ""
        parts = [p for p in path.split("/") if p and p != "."]
        for k, part in enumerate(parts):
            if part == "..":
                cur = os.path.dirname(cur)
                continue
            cur += "/" + part
            e = self.ent.get(cur)
            if e and e[0] == "l":
                return self.resolve("/".join([os.path.join(os.path.dirname(cur), e[1])] + parts[k + 1:]), depth + 1)
        return cur

    def read(self, path):
        """Contents through symbolic links, or None."""
        p = self.resolve(path)
        e = self.ent.get(p) if p else None
        return self.data[e[1]] if e and e[0] == "f" else None


def snapshot(root):
    import os, stat
    d = Disk()
    for dp, dns, fns in os.walk(root):
        d.ent[dp] = ("d",)
        for n in dns + fns:
            p = os.path.join(dp, n)
            st = os.lstat(p)
            if stat.S_ISLNK(st.st_mode):
                d.ent[p] = ("l", os.readlink(p))
            elif stat.S_ISREG(st.st_mode):
                with open(p, "rb") as f:
                    d.data[st.st_ino] = f.read()
                d.mode[st.st_ino] = stat.S_IMODE(st.st_mode)
                d.ent[p] = ("f", st.st_ino)
            elif stat.S_ISDIR(st.st_mode):
                d.ent[p] = ("d",)
            else:
                d.ent[p] = ("s",)
    return d


def unesc(s):
    if s == "%":
        return ""
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == "%":
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return out.decode("utf-8", "replace")


class Op:
    __slots__ = ("step", "kind", "a")

    def __init__(self, step, kind, a):
        self.step, self.kind, self.a = step, kind, a


def parse_log(text):
    """-> (steps, faults, ops, escapes); steps: list of (n, class, op, path)."""
    steps, faults, ops, escapes = [], [], [], []
    now = {}

    def ino(w):
        return now.get(int(w[3]), int(w[3]))

    for line in text.splitlines():
        w = line.split(" ")
        if w[0] == "step":
            steps.append((int(w[1]), w[2], w[3], unesc(w[4])))
        elif w[0] == "fault":
            faults.append((int(w[1]), w[2], " ".join(w[3:])))
        elif w[0] == "escape":
            escapes.append((w[2], unesc(w[3])))
        elif w[0] == "m":
            k = w[2]
            if k == "create":
                # the number of a deleted file may be used again
                now[int(w[3])] = -len(ops) - 1
                ops.append(Op(int(w[1]), k, (now[int(w[3])], unesc(w[4]), int(w[5], 8))))
            elif k == "trunc":
                ops.append(Op(int(w[1]), k, (ino(w), int(w[4]))))
            elif k == "write":
                ops.append(Op(int(w[1]), k, (ino(w), int(w[4]), b"" if w[5] == "-" else bytes.fromhex(w[5]))))
            elif k == "syncdir":
                ops.append(Op(int(w[1]), k, (int(w[3]), unesc(w[4]))))
            elif k == "sync":
                ops.append(Op(int(w[1]), k, (ino(w),)))
            elif k in ("rename", "exchange", "link", "symlink"):
                ops.append(Op(int(w[1]), k, (unesc(w[3]), unesc(w[4]))))
            elif k == "chmod":
                ops.append(Op(int(w[1]), k, (unesc(w[3]), int(w[4], 8))))
            else:
                ops.append(Op(int(w[1]), k, (unesc(w[3]),)))
    return steps, faults, ops, escapes


def apply_meta(d, op):
    k, a = op.kind, op.a
    if k == "create":
        d.ent[a[1]] = ("f", a[0])
        d.data[a[0]] = b""
        d.mode[a[0]] = a[2]
    elif k == "trunc":
        cur = d.data.get(a[0], b"")
        d.data[a[0]] = cur[:a[1]] + b"\0" * max(0, a[1] - len(cur))
    elif k in ("rename", "exchange"):
        src, dst = a
        if src not in d.ent:
            return
        if k == "exchange":
            d.ent[src], d.ent[dst] = d.ent.get(dst), d.ent[src]
            return
        moved = {p: e for p, e in d.ent.items() if p == src or p.startswith(src + "/")}
        for p in [p for p in d.ent if p == dst or p.startswith(dst + "/")]:
            del d.ent[p]
        for p, e in moved.items():
            del d.ent[p]
            d.ent[dst + p[len(src):]] = e
    elif k in ("unlink", "rmdir"):
        d.ent.pop(a[0], None)
    elif k == "mkdir":
        d.ent[a[0]] = ("d",)
    elif k == "link":
        if a[0] in d.ent:
            d.ent[a[1]] = d.ent[a[0]]
    elif k == "symlink":
        d.ent[a[0]] = ("l", a[1])
    elif k == "chmod":
        e = d.ent.get(a[0])
        if e and e[0] == "f":
            d.mode[e[1]] = a[1]


def write_at(cur, pos, data):
    if len(cur) < pos:
        cur = cur + b"\0" * (pos - len(cur))
    return cur[:pos] + data + cur[pos + len(data):]


def power_loss_images(initial, ops, rng=None, limit=64):
    """All the disk states a power loss after these operations can leave (a sample if many).

    Yields (description, Disk)."""
    meta_idx = [i for i, o in enumerate(ops) if o.kind not in ("write", "sync", "syncdir")]
    last_sync = {}
    must = 0
    for i, o in enumerate(ops):
        if o.kind in ("sync", "syncdir"):
            last_sync[o.a[0]] = i
            must = i
    # metadata operations before the last sync of anything are durable
    cuts = [must] + [i + 1 for i in meta_idx if i >= must]
    cuts = sorted(set(cuts))
    combos = []
    for c in cuts:
        for variant in ("kept", "lost", "zero", "half", "short"):
            combos.append((c, variant))
    if rng is not None and len(combos) > limit:
        keep = combos[:6] + combos[-6:]
        combos = keep + rng.sample(combos[6:-6], limit - len(keep))
    seen = set()
    for c, variant in combos:
        d = initial.copy()
        # metadata prefix; data operations of files known so far
        for i, o in enumerate(ops):
            if o.kind in ("sync", "syncdir"):
                continue
            if o.kind == "write":
                ino, pos, data = o.a
                if ino not in d.data:
                    continue
                if i < last_sync.get(ino, -1):
                    d.data[ino] = write_at(d.data[ino], pos, data)
                elif variant == "kept":
                    d.data[ino] = write_at(d.data[ino], pos, data)
                elif variant == "zero":
                    d.data[ino] = write_at(d.data[ino], pos, b"\0" * len(data))
                elif variant == "half":
                    d.data[ino] = write_at(d.data[ino], pos, data[:len(data) // 2])
                elif variant == "short":
                    d.data[ino] = write_at(d.data[ino], pos, data[:-1])
                continue
            if i < c:
                apply_meta(d, o)
        key = (tuple(sorted((p, e[0], d.data.get(e[1]) if e[0] == "f" else e[-1]) for p, e in d.ent.items() if e)))
        h = hash(key)
        if h in seen:
            continue
        seen.add(h)
        yield f"metadata up to operation {c} of {len(ops)}, unsynced data {variant}", d
    if rng is not None:
        yield from strict_images(initial, ops, rng, seen, limit // 2)


def strict_images(initial, ops, rng, seen, limit):
    """The same for file systems that order nothing between directories: only syncing a directory
    makes the changes of its entries (and its own and its parents' names) durable, and only syncing a file its data."""
    import os

    def dirs(op):
        if op.kind == "create":
            return [os.path.dirname(op.a[1])]
        if op.kind in ("rename", "exchange", "link"):
            return [os.path.dirname(a) for a in op.a]
        if op.kind == "symlink":
            return [os.path.dirname(op.a[0])]
        if op.kind in ("unlink", "rmdir", "mkdir"):
            return [os.path.dirname(op.a[0])]
        return []
    data_synced, made = {}, {}
    for i, o in enumerate(ops):
        if o.kind == "sync":
            data_synced[o.a[0]] = i
        for x in dirs(o):
            made.setdefault(x, []).append(i)
    if not made:
        return
    must = {x: max([i for i, o in enumerate(ops) if o.kind == "syncdir" and o.a[1] == x], default=-1) for x in made}
    # a directory that is synced has a name
    for i, o in enumerate(ops):
        if o.kind == "syncdir":
            for j in range(i):
                if ops[j].kind == "mkdir" and (o.a[1] + "/").startswith(ops[j].a[0] + "/"):
                    up = os.path.dirname(ops[j].a[0])
                    must[up] = max(must[up], j)
    for _ in range(limit):
        cut = {x: rng.choice([must[x]] * 2 + [len(ops)] + [i for i in made[x] if i >= must[x]]) for x in made}
        variant = rng.choice(["kept", "lost", "zero", "half"])
        d = initial.copy()
        for i, o in enumerate(ops):
            if o.kind in ("sync", "syncdir"):
                continue
            if o.kind == "write":
                ino, pos, data = o.a
                if ino not in d.data:
                    continue
                if i < data_synced.get(ino, -1) or variant == "kept":
                    d.data[ino] = write_at(d.data[ino], pos, data)
                elif variant == "zero":
                    d.data[ino] = write_at(d.data[ino], pos, b"\0" * len(data))
                elif variant == "half":
                    d.data[ino] = write_at(d.data[ino], pos, data[:len(data) // 2])
                continue
            if o.kind == "trunc":
                if i < data_synced.get(o.a[0], -1) or variant != "lost":
                    apply_meta(d, o)
                continue
            if all(i <= cut[x] for x in dirs(o)):
                apply_meta(d, o)
            elif o.kind == "create":
                # the file exists, but has no name
                d.data[o.a[0]] = b""
        # what has lost its directory is gone
        for p in sorted(d.ent):
            up = os.path.dirname(p)
            if p in d.ent and up not in d.ent and any(up == x or up.startswith(x + "/") for x in [q for q in made]):
                for q in [q for q in d.ent if q == p or q.startswith(p + "/")]:
                    del d.ent[q]
        key = hash(tuple(sorted((p, e[0], d.data.get(e[1]) if e[0] == "f" else e[-1]) for p, e in d.ent.items() if e)))
        if key in seen:
            continue
        seen.add(key)
        yield f"directories up to operations {cut}, unsynced data {variant}", d


def materialise(d, root):
    """Write a disk image below root (which is emptied first)."""
    import os, shutil
    from common import fresh_dir
    fresh_dir(root)
    inos = {}
    for p in sorted(d.ent):
        e = d.ent[p]
        if e is None or not (p == root or p.startswith(root + "/")):
            continue
        if e[0] == "d":
            os.makedirs(p, exist_ok=True)
        elif e[0] == "l":
            os.makedirs(os.path.dirname(p), exist_ok=True)
            os.symlink(e[1], p)
        elif e[0] == "f":
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(d.data[e[1]])
            os.chmod(p, d.mode.get(e[1], 0o644))
            inos.setdefault(e[1], p)
