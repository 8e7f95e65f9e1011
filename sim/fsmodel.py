"""Replays an operation log on a model file system: what a reader sees after every
operation, and what may be left on disk after a power loss at that point.

Power-loss rules: directory changes reach the disk in order but arbitrarily late;
file data reaches the disk only when the file is synced, otherwise any prefix of
the not yet synced changes (or none) may survive.
"""
O_TRUNC = 0o1000
O_APPEND = 0o2000


class Inode:
    def __init__(self, content=b""):
        self.base = bytearray(content)   # content when durable part was last known
        self.ops = []                    # (seq, 'w', off, data) / (seq, 't', len)
        self.synced = 0                  # number of ops known durable

    def content(self, n=None):
        b = bytearray(self.base)
        for op in self.ops[:n]:
            if op[0] == "w":
                _, off, data = op
                if len(b) < off:
                    b += b"\0" * (off - len(b))
                b[off:off + len(data)] = data
            else:
                ln = op[1]
                del b[ln:]
                if len(b) < ln:
                    b += b"\0" * (ln - len(b))
        return bytes(b)


class FS:
    def __init__(self, files, links, inos):
        """files: {path: bytes}, links: {path: target path relative to root}, inos: {path: id}"""
        self.inodes = {}
        self.names = {}
        for p, c in files.items():
            i = self.inodes.setdefault(inos[p], Inode(c))      # hard links share one
            self.names[p] = i
        self.links = dict(links)
        self.journal = []     # namespace changes: functions on a names dict

    def _ns(self, fn):
        fn(self.names)
        self.journal.append(fn)

    def _ino(self, o, key="ino"):
        return self.inodes.get(o[key])

    def resolve(self, path, names=None):
        for _ in range(8):
            if path in self.links:
                path = self.links[path]
            else:
                break
        return path

    def apply(self, o):
        k = o["kind"]
        if k == "open":
            if o["ret"] < 0:
                return
            path = self.resolve(o["path"])
            if o["len"]:                       # created
                node = Inode()
                self.inodes[o["ino"]] = node
                self._ns(lambda n, p=path, x=node: n.__setitem__(p, x))
            elif o["flags"] & O_TRUNC:
                node = self._ino(o)
                if node is not None:
                    node.ops.append(("t", 0))
        elif k in ("write", "copy"):
            node = self._ino(o)
            if node is not None and o["ret"] > 0 and "data" in o:
                node.ops.append(("w", o["off"], o["data"]))
        elif k == "trunc":
            node = self._ino(o)
            if node is not None and o["ret"] == 0:
                node.ops.append(("t", o["len"]))
        elif k == "fsync":
            node = self._ino(o)
            if node is not None and o["ret"] == 0:
                node.synced = len(node.ops)
        elif k == "rename" and o["ret"] == 0:
            a, b = o["path"], o["path2"]
            if a in self.names:
                self.links.pop(b, None)

                def mv(n, a=a, b=b):
                    if a in n:
                        n[b] = n.pop(a)
                self._ns(mv)
        elif k == "unlink" and o["ret"] == 0:
            if o["path"] in self.links:
                self.links.pop(o["path"])
            else:
                self._ns(lambda n, p=o["path"]: n.pop(p, None))
        elif k == "link" and o["ret"] == 0:
            def ln(n, a=o["path"], b=o["path2"]):
                if a in n:
                    n[b] = n[a]
            self._ns(ln)

    def view(self, path):
        node = self.names.get(self.resolve(path))
        return None if node is None else node.content()


def explore(files, links, inos, log, path, visit):
    """Calls visit(kind, op index, content or None) for what `path` may hold after
    each operation: kind 'live' for running or killed processes, 'power' for a
    power loss.  Stops when visit returns True.  Returns the number of states."""
    fs = FS(files, links, inos)
    start = dict(fs.names)
    states = 0
    seen = set()
    for o in [None] + list(log):
        if o is not None:
            fs.apply(o)
        i = -1 if o is None else o["i"]
        c = fs.view(path)
        states += 1
        if visit("live", i, c):
            return states
        if o is not None and o["kind"] in ("read", "close", "chmod", "utime", "chown"):
            continue
        # power loss: every prefix of the journal, every prefix of unsynced data
        names = dict(start)
        target = fs.resolve(path)
        for p in range(len(fs.journal) + 1):
            if p:
                fs.journal[p - 1](names)
            node = names.get(target)
            if node is None:
                key = ("none",)
                opts = [None]
            else:
                key = (id(node), len(node.ops), node.synced)
                n = len(node.ops)
                cuts = list(range(node.synced, n + 1))
                if len(cuts) > 12:
                    cuts = cuts[:6] + cuts[-6:]
                opts = cuts
            if key in seen:
                continue
            seen.add(key)
            for cut in opts:
                states += 1
                if visit("power", i, None if cut is None else node.content(cut)):
                    return states
    return states
