"""Python side of the simulated operating system (see simos.c)."""
import ctypes as C, errno, os

KINDS = ["", "open", "read", "write", "close", "fsync", "rename", "unlink", "link", "symlink",
         "trunc", "chmod", "mkdir", "rmdir", "utime", "copy", "ESCAPE", "chown"]
K = {n: i for i, n in enumerate(KINDS) if n}
FTYPES = ["none", "err", "short", "eintr", "sigint", "crash", "crash_after", "torn",
          "sigint_after", "clockjump", "latency"]
F = {n: i for i, n in enumerate(FTYPES)}
PATHLEN = 224


class Op(C.Structure):
    _fields_ = [(n, C.c_int32) for n in ("kind", "ino", "ino2", "fd", "err", "flags", "fault", "proc")] + \
               [(n, C.c_int64) for n in ("off", "len", "ret", "data", "t")] + \
               [("path", C.c_char * PATHLEN), ("path2", C.c_char * PATHLEN)]


class OS:
    def __init__(self, root):
        self.root = root
        self.lib = L = C.CDLL(None)
        L.sim_op.restype = C.POINTER(Op)
        L.sim_op.argtypes = [C.c_int]
        L.sim_blob.restype = C.c_void_p
        L.sim_get.restype = C.c_int64
        L.sim_alloc_disarm.restype = C.c_int64
        L.sim_alloc_failed.restype = C.c_int64
        L.sim_alloc_live.restype = L.sim_alloc_pylive.restype = L.sim_noted.restype = C.c_int64
        L.sim_note.argtypes = [C.c_int64]
        L.sim_alloc_arm.argtypes = [C.c_int64, C.c_int64]
        L.sim_alloc_arm_ext.argtypes = [C.c_int64, C.c_int64]
        L.sim_alloc_arm_ext.restype = None
        L.sim_alloc_arm.restype = None      # so that nothing is allocated on the way back
        L.sim_knob.argtypes = [C.c_int, C.c_int64]
        L.sim_reset.argtypes = [C.c_uint64]
        L.sim_fault.argtypes = [C.c_int64, C.c_int, C.c_int, C.c_int64, C.c_int, C.c_int, C.c_char_p]
        L.sim_fd_path.restype = C.c_char_p
        if L.sim_init(os.fsencode(root)) != 0:
            raise RuntimeError("sim_init failed")

    def reset(self, seed=0):
        self.lib.sim_reset(seed & (2**64 - 1))

    def arm(self, on=True):
        self.lib.sim_arm(1 if on else 0)

    KNOBS = {"capacity": 0, "rd_max": 1, "wr_max": 2, "clock": 3, "tick_ns": 4, "op_ns": 5, "proc": 6,
             "jump": 7, "advance": 8, "read_jump_at": 9, "read_jump": 10,
             "same_random": 11, "same_pid": 12}
    GETS = {"nops": 0, "overflow": 1, "escapes": 2, "crashed": 3, "cap_fired": 4, "short_fired": 5,
            "mono": 6, "real": 7, "capacity": 8, "read_jump_at": 9}

    def knob(self, name, v):
        self.lib.sim_knob(self.KNOBS[name], int(v))

    def get(self, name):
        return self.lib.sim_get(self.GETS[name])

    def fault(self, f):
        """f: dict k (index of the operation; -n: the n-th one that matches), type, arg|errno, sticky, kinds, proc, match"""
        arg = f.get("arg", 0)
        if "errno" in f:
            arg = getattr(errno, f["errno"])
        mask = 0
        for k in f.get("kinds", ()):
            mask |= 1 << K[k]
        return self.lib.sim_fault(f.get("k", 0), mask, F[f["type"]], arg, 1 if f.get("sticky") else 0,
                                  f.get("proc", -1), f.get("match", "").encode())

    def fired(self, n):
        return [self.lib.sim_fault_fired(i) for i in range(n)]

    def log(self, data=True):
        """The operation log as a list of dicts with paths relative to the root."""
        n = self.get("nops")
        blob = self.lib.sim_blob()
        out = []
        for i in range(n):
            o = self.lib.sim_op(i).contents
            d = {"i": i, "kind": KINDS[o.kind], "ino": o.ino, "off": o.off, "len": o.len,
                 "ret": o.ret, "err": o.err, "flags": o.flags, "fault": FTYPES[o.fault], "proc": o.proc,
                 "path": self.rel(o.path.decode()), "t": o.t}
            if o.path2:
                d["path2"] = self.rel(o.path2.decode())
                d["ino2"] = o.ino2
            if data and o.data >= 0:
                d["data"] = C.string_at(blob + o.data, o.ret)
            out.append(d)
        return out

    def rel(self, p):
        if p.startswith(self.root):
            return p[len(self.root):].lstrip("/")
        return p


def brief(log, limit=60):
    """Log lines for people."""
    out = []
    for o in log[:limit]:
        s = "%3d %-6s %s" % (o["i"], o["kind"], o["path"])
        if o.get("path2"):
            s += " -> " + o["path2"]
        if o["kind"] in ("read", "write", "copy"):
            s += " @%d %d/%d" % (o["off"], o["ret"], o["len"])
        if o["fault"] != "none":
            s += "  [%s%s]" % (o["fault"], " " + errno.errorcode.get(o["err"], "") if o["err"] else "")
        out.append(s)
    if len(log) > limit:
        out.append("... %d more" % (len(log) - limit))
    return out
