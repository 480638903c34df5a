"""ctypes control of the LD_PRELOAD file-operation seam (shim/faultio.c)."""
import ctypes
import errno
import os

KINDS = ["open_r", "open_w", "read", "write", "trunc", "close", "mkdir",
         "rmdir", "unlink", "rename", "fsync"]
KIND = {k: i for i, k in enumerate(KINDS)}
ACTIONS = {"fail": 1, "short": 2, "torn": 3, "crash": 4, "crash_torn": 5,
           "crash_after": 6, "sticky": 7, "eexist": 8}
CRASH_EXIT = 137

_lib = None


def lib():
    global _lib
    if _lib is None:
        so = os.environ.get("DST_SHIM")
        if not so:
            raise RuntimeError("DST_SHIM is not set")
        _lib = ctypes.CDLL(so)
        _lib.dst_root.argtypes = [ctypes.c_char_p]
        _lib.dst_plan.argtypes = [ctypes.c_int, ctypes.c_long, ctypes.c_int,
                                  ctypes.c_int, ctypes.c_long,
                                  ctypes.c_char_p]
        _lib.dst_capacity.argtypes = [ctypes.c_long]
        for f in ("dst_nops", "dst_cap_hits", "dst_nkind", "dst_log",
                  "dst_paths"):
            getattr(_lib, f).restype = ctypes.c_long
        _lib.dst_log.argtypes = [ctypes.c_char_p, ctypes.c_long]
        _lib.dst_paths.argtypes = [ctypes.c_char_p, ctypes.c_long]
    return _lib


class Disk:
    """One armed window over the files below `root`."""

    def __init__(self, root):
        self.l = lib()
        self.l.dst_reset()
        self.l.dst_root(os.path.realpath(root).encode())
        self.plans = []
        self.capacity = None

    def plan(self, faults):
        """faults: list of {kind, nth, action, errno, param, sub} or
        {capacity: bytes}."""
        for f in faults:
            if "capacity" in f:
                self.capacity = f["capacity"]
                self.l.dst_capacity(int(f["capacity"]))
                continue
            k = KIND[f["kind"]] if f.get("kind") not in (None, "any") else -1
            e = getattr(errno, f.get("errno", "EIO"))
            i = self.l.dst_plan(k, int(f["nth"]), ACTIONS[f["action"]], e,
                                int(f.get("param", 500)),
                                f.get("sub", "").encode())
            self.plans.append((i, f))

    def arm(self):
        self.l.dst_arm(1)

    def disarm(self):
        self.l.dst_arm(0)

    def clear(self):
        fired = self.fired()
        self.l.dst_clear()
        self.plans = []
        self.capacity = None
        return fired

    def fired(self):
        out = []
        for i, f in self.plans:
            n = self.l.dst_fired(i)
            if n:
                out.append([f["kind"] + ":" + f["action"] + ":"
                            + f.get("errno", "EIO"), n])
        if self.capacity is not None and self.l.dst_cap_hits():
            out.append(["disk_full", int(self.l.dst_cap_hits())])
        return out

    def nops(self):
        return int(self.l.dst_nops())

    def counts(self):
        return {k: int(self.l.dst_nkind(i)) for i, k in enumerate(KINDS)
                if self.l.dst_nkind(i)}

    def log(self):
        n = self.nops()
        buf = ctypes.create_string_buffer(max(1, n))
        m = self.l.dst_log(buf, n)
        return [KINDS[b] for b in buf.raw[:m]]

    def paths(self):
        """[(kind, absolute path)] of what was opened for writing, renamed to
        ("f") or made as a folder ("d")."""
        buf = ctypes.create_string_buffer(1 << 18)
        m = self.l.dst_paths(buf, 1 << 18)
        return [(x[:1], x[1:]) for x in
                buf.raw[:m].decode("utf8", "replace").split("\n") if x]
