"""Shared pieces of the property checks."""
import hashlib
import os
import random
import sys

import numpy as np

from dst.engine import Violation, REPO

POLICIES = ("rand", "rand", "rand", "pct", "pct", "rr", "lifo", "fifo")


def gen_sched(rng, **over):
    c = {"policy": rng.choice(POLICIES), "seed": rng.randrange(1 << 30),
         "p": rng.choice((0.02, 0.1, 0.3, 0.7, 1.0)),
         "d": rng.choice((1, 2, 3, 5)), "n_est": rng.choice((50, 300, 2000)),
         "opcodes": rng.random() < 0.12,
         "listing": rng.choice(("sorted", "reversed", "shuffled",
                                "shuffled")),
         "clock": rng.choice(("steady", "steady", "frozen", "backward",
                              "jumps", "epoch0")),
         "ncpu": rng.choice((1, 2, 2, 3, 4, 5, 8, 16, 64)),
         "memmap_limit": rng.choice((1, 1 << 20))}
    c.update(over)
    return c


def lib_dir():
    return os.path.join(os.path.realpath(REPO), "algotom") + os.sep


_TRACE = None


def trace_dirs(extra=False):
    here = os.path.dirname(os.path.abspath(__file__))
    dirs = [lib_dir(), os.path.join(here, "methods.py")]
    if extra:
        import pathlib
        import shutil
        import PIL.Image
        import PIL.TiffImagePlugin
        import PIL.ImageFile
        for m in (pathlib, shutil, PIL.TiffImagePlugin, PIL.ImageFile):
            dirs.append(os.path.realpath(m.__file__))
            dirs.append(m.__file__)
    return tuple(dirs)


def simulate(case, ctx, fn, max_steps=1500000, extra_trace=False,
             worker_faults=None, trace_main=False):
    """Run fn() under the simulator described by case['sched']."""
    from dst import sim as S
    cfg = case["sched"]
    s = S.Sim(cfg, max_steps=max_steps)
    s.trace_dirs = trace_dirs(extra_trace)
    s.clock_mode = cfg.get("clock", "steady")
    s.ncpu = cfg.get("ncpu")
    if worker_faults:
        s.worker_faults = [dict(f) for f in worker_faults]
        if any(f["kind"] == "exc_line" for f in worker_faults):
            # raising from a trace function crashes CPython 3.12 now and then
            # in frames that are traced by opcode
            s.opcodes = False
    ctx.sims.append(s)
    np.random.seed(cfg.get("seed", 0) % (1 << 31))
    random.seed(cfg.get("seed", 0))

    def main():
        if trace_main:
            s.trace_here()
        try:
            return fn(s)
        finally:
            sys.settrace(None)
    try:
        out = s.run(main)
    except (S.Deadlock, S.StepLimit) as e:
        raise Violation("no-progress", "%s: %s" % (type(e).__name__, e))
    if s.max_ready > 1:
        ctx.nontrivial = True
    ctx.count("max_parallel_%d" % min(s.max_ready, 8))
    return out


def outcome(fn, *a, **k):
    """('ok', value) or ('err', exception) - harness errors pass through."""
    from dst import sim as S
    try:
        return "ok", fn(*a, **k)
    except (S.Deadlock, S.StepLimit, S.SimError, Violation):
        raise
    except Exception as e:
        return "err", e


def data(shape, seed, dtype="float32", kind="noise"):
    r = np.random.RandomState(seed & 0x7fffffff)
    dt = np.dtype(dtype)
    if kind == "smooth":
        g = np.meshgrid(*[np.linspace(0, 3, n) for n in shape],
                        indexing="ij")
        a = sum(np.sin(x * (i + 1.3)) for i, x in enumerate(g))
        a = a + 0.2 * r.rand(*shape) + 4.0
    else:
        a = r.rand(*shape) + 0.25
    if kind == "blocks":            # equal neighbours along every axis
        for ax, n in enumerate(a.shape):
            a = np.take(a, np.arange(n) // 2 * 2, axis=ax)
    elif kind == "zero":
        a = a * 0
    elif kind == "sparse":
        a = a * (r.rand(*shape) > 0.4)
    if dt.kind in "iu":
        top = min(np.iinfo(dt).max, 60000)
        a = a / max(a.max(), 1e-9) * top * 0.9
        if kind == "signed" and dt.kind == "i":
            a = a - top * 0.4
        return np.asarray(a).astype(dt)
    if kind == "signed":
        a = a - 0.75
    return np.asarray(a).astype(dt)


def ahash(a):
    a = np.ascontiguousarray(a)
    h = hashlib.sha256()
    h.update(str((a.shape, a.dtype.str)).encode())
    h.update(a.tobytes())
    return h.hexdigest()[:16]


def obj_hash(o):
    """Structural hash of nested results/arguments."""
    if isinstance(o, np.ndarray):
        return ahash(o)
    if isinstance(o, (list, tuple)):
        return hashlib.sha256(("L" + ",".join(obj_hash(x) for x in o))
                              .encode()).hexdigest()[:16]
    if isinstance(o, dict):
        return hashlib.sha256(("D" + ",".join(
            str(k) + obj_hash(v) for k, v in sorted(o.items(), key=str)))
            .encode()).hexdigest()[:16]
    if isinstance(o, np.generic):
        return "g" + repr(o.item())
    return repr(o)


def same_array(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.array_equal(a, b, equal_nan=(
        a.dtype.kind in "fc" and b.dtype.kind in "fc"))


def diff_text(got, want, what):
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        return "%s: shape %s, expected %s" % (what, got.shape, want.shape)
    try:
        bad = ~(np.isclose(got, want, rtol=0, atol=0, equal_nan=True))
        n = int(np.sum(bad))
        idx = tuple(int(x) for x in np.argwhere(bad)[0]) if n else None
        return "%s: %d of %d elements differ, first at %s: %r, expected %r" % (
            what, n, got.size, idx, got[idx] if idx is not None else None,
            want[idx] if idx is not None else None)
    except Exception as e:
        return "%s differ (%s)" % (what, e)


def expect_equal(got, want, what, cls="wrong-result", site=""):
    if not same_array(got, want):
        raise Violation(cls, diff_text(got, want, what), site)


def expect_close(got, want, what, rtol=1e-4, atol=1e-5, cls="wrong-result",
                 site=""):
    g, w = np.asarray(got), np.asarray(want)
    if g.shape != w.shape:
        raise Violation(cls, "%s: shape %s, expected %s" % (what, g.shape,
                                                            w.shape), site)
    g64, w64 = g.astype(np.float64), w.astype(np.float64)
    scale = float(np.max(np.abs(w64[np.isfinite(w64)]))) if \
        np.isfinite(w64).any() else 0.0
    fin = np.isfinite(w64)
    if not np.array_equal(np.isfinite(g64), fin):
        raise Violation(cls, "%s: finite/non-finite pattern differs" % what,
                        site)
    d = np.abs(g64[fin] - w64[fin])
    if d.size and float(d.max()) > atol + rtol * scale:
        k = int(np.argmax(d))
        raise Violation(cls, "%s: max difference %.3g (scale %.3g): %r, "
                        "expected %r" % (what, d.max(), scale, g64[fin][k],
                                         w64[fin][k]), site)


def file_state(root):
    """{relative path: (kind, content hash)} of everything below root."""
    out = {}
    from dst import sim as S
    for base, dirs, files in os.walk(root):
        for d in dirs:
            p = os.path.join(base, d)
            out[os.path.relpath(p, root) + "/"] = "dir" + _mode(p)
        for f in files:
            p = os.path.join(base, f)
            try:
                with open(p, "rb") as fh:
                    out[os.path.relpath(p, root)] = hashlib.sha256(
                        fh.read()).hexdigest()[:16] + _mode(p)
            except OSError as e:
                out[os.path.relpath(p, root)] = "unreadable %s" % e
    return out


def _mode(path):
    """Permissions and links, as part of the state of a file."""
    st = os.lstat(path)
    if os.path.islink(path):
        return " link to " + os.readlink(path)
    return " mode %o" % (st.st_mode & 0o7777)
