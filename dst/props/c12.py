"""C12: concurrent callers do not disturb each other or their inputs."""
import copy
import warnings

import numpy as np

from dst import funcs, ioops
from dst.common import (file_state, gen_sched, obj_hash, outcome, simulate)
from dst.engine import Violation
from dst.fresh import fresh
from dst.funcprops import shrink as shrink_func
from dst.ioprops import (check_foreign, drop_exception, expects_error,
                         judge_files, setup, shrink as shrink_io)
from dst.sim import _freeze
__all__ = ["gen", "run", "shrink", "warm"]


def warm(base):
    funcs.warm(base)
    ioops.warm(base)


LEVEL = "exploration"
CASES = {"quick": 250, "thorough": 20000}
SECONDS = {"quick": 50, "thorough": 550}
RULE = ("One case = 1 to 4 callers, each making 1 to 3 calls of public "
        "processing functions on input arrays shared between the callers "
        "(optionally read-only), worker counts, schedule. The expected "
        "values come from a fork of the pristine process per call. In a "
        "fourth of the cases 2 or 3 callers work on files, each in its own "
        "folder or reading the same ones, judged against plain numpy. "
        "Non-trivial: two callers overlapped or a call had predecessors.")
REAL = ["the in-memory functions of algotom.prep, rec, util and post and "
        "all file operations (on a real scratch file system)",
        "numba-compiled kernels (called one at a time)"]
STUB = ["joblib.Parallel worker pool (simulated)", "CPU count", "clock"]
ASSUMPTIONS = ["pre-emption happens between source lines or bytecodes of the "
               "library; numpy/scipy/numba calls are atomic",
               "functions that use numpy's global generator are reseeded by "
               "their caller, so they run alone in the order of the calls"]
NAMES = [n for n, f in funcs.FUNCS.items() if not f.rand]
LIGHT = [n for n in NAMES if not funcs.FUNCS[n].heavy]


def gen(rng, i, tier):
    if i % 4 == 3:
        return gen_files(rng)
    if i % 3:
        return gen_near(rng, i)
    nt = rng.choice((1, 2, 2, 2, 3, 4))
    same = rng.random() < 0.45
    f0 = rng.choice(NAMES if rng.random() < 0.3 else LIGHT)
    aseed = rng.randrange(1 << 30)
    big = rng.random() < 0.12
    callers = []
    for _ in range(nt):
        calls = []
        for _ in range(rng.choice((1, 1, 2, 3) if nt > 1 else (2, 3, 4))):
            f = funcs.FUNCS[f0 if same else rng.choice(LIGHT)]
            p = f.gen(rng)
            r = rng.random()
            if same and r < 0.5:
                p["aseed"] = aseed            # identical arguments
                if calls and rng.random() < 0.5:
                    p["jitter"] = rng.randrange(1, 1 << 20)    # nearly so
            elif r < 0.75:
                p["data"] = aseed % 7         # other options, same arrays
            if big:
                f.enlarge(p)
            if rng.random() < 0.06:
                p["flatten"] = rng.choice(("zero", "zero", "one"))
            calls.append(p)
        callers.append(calls)
    return {"kind": "concurrent" if nt > 1 else "history", "op": f0,
            "callers": callers, "share": rng.random() < 0.8,
            "readonly": rng.random() < 0.35,
            "scribble": rng.random() < 0.5,
            "filters": rng.random() < 0.5,
            "reuse": nt == 1 and rng.random() < 0.4,
            "sched": gen_sched(rng, p=rng.choice((0.1, 0.3, 0.7, 1.0)))}


def gen_files(rng):
    """Two or three callers, each with its own files (other content under the
    same names), or readers of the same files."""
    nt = rng.choice((2, 2, 3))
    name = rng.choice(list(ioops.OPS))
    same = rng.random() < 0.6
    ps = []
    for _ in range(nt):
        op = ioops.OPS[name if same else rng.choice(list(ioops.OPS))]
        ps.append([op.name, op.gen(rng)])
    if same and rng.random() < 0.4:
        for q in ps[1:]:        # the same request on other data
            q[1] = dict(ps[0][1])
            if "seed" in q[1]:
                q[1]["seed"] = rng.randrange(1 << 30)
    if rng.random() < 0.1:      # stacks of dark images
        name = rng.choice(("stack_images", "stack_ref_sam", "stack_dls"))
        ps = [[name, dict(ioops.OPS[name].gen(rng), dark=False)] for _ in ps]
        for _, q in ps:
            q["content"] = "zero"
    for _, q in ps:
        if rng.random() < 0.15 and "seed" in q:
            q["content"] = "zero"
    shared = same and not ioops.OPS[name].writes and rng.random() < 0.3
    if shared:
        ps = [[name, dict(ps[0][1])] for _ in ps]
    return {"kind": "files", "op": name, "calls": ps, "shared": shared,
            "rounds": rng.choice((1, 1, 2)), "deep": rng.random() < 0.1 and all(
                q.get("shape", [1])[0] < 12 for _, q in ps),
            "sched": gen_sched(rng, p=rng.choice((0.1, 0.3, 0.7, 1.0)))}


def run_files(case, ctx):
    """Callers of file operations at the same time."""
    ops = [ioops.OPS[n] for n, _ in case["calls"]]
    ps = [p for _, p in case["calls"]]
    roots = [ctx.path("w0") if case["shared"] else ctx.path("w%d" % k)
             for k in range(len(ops))]
    for k, (op, p) in enumerate(zip(ops, ps)):
        if not k or not case["shared"]:
            setup(ctx, op, p, "w%d" % k)
    before = [file_state(r) for r in roots]
    set0 = settings()
    res = [None] * len(ops)

    def caller(s, t):
        import sys
        s.trace_here()
        try:
            op, p = ops[t], ps[t]
            for n in range(case["rounds"]):
                if n and (res[t][0] == "err" or op.writes):
                    break
                if n:
                    cur = s.current()
                    cur.nopre += 1
                    op.release(res[t][1])
                    cur.nopre -= 1
                own = own_settings()
                res[t] = outcome(op.call, roots[t], p)
                same_settings(own, op.name)
        finally:
            sys.settrace(None)

    def main(s):
        ts = [s.spawn("caller%d" % t, lambda t=t: caller(s, t))
              for t in range(len(ops))]
        s.join(ts)
        for t in ts:
            if t.error is not None:
                raise t.error
    simulate(case, ctx, main, max_steps=3000000,
             extra_trace=case.get("deep", False))
    ctx.nontrivial = True
    for t, (op, p) in enumerate(zip(ops, ps)):
        st, r = res[t]
        ctx.count("io_" + op.name)
        if expects_error(op, p):
            if st == "ok":
                raise Violation("missing-error", "%s accepted a wrong "
                                "request" % op.name, op.name)
            continue
        if st == "err":
            raise Violation("concurrent-call-fails", "%s raised %s: %s while "
                            "other threads work on other files" % (
                                op.name, type(r).__name__, r), op.name)
        op.result(roots[t], p, r)
    for t, (op, p) in enumerate(zip(ops, ps)):
        st, r = res[t]
        if st == "ok":
            op.release(r)
        if expects_error(op, p) or st == "err":
            continue
        judge_files(op, roots[t], p, before[t])
        check_foreign(op, p, before[t], roots[t])
    set1 = settings()
    for k in set0:
        if set0[k] != set1[k]:
            raise Violation("settings-changed", "%s changed by %s" % (
                k, [o.name for o in ops]), k)


def gen_near(rng, i):
    """Calls of one function (each function in turn) whose arguments differ
    in one place only: a history, or two callers at the same time."""
    names = NAMES if i % 3 == 1 else LIGHT
    f = funcs.FUNCS[names[(i // 3) % len(names)]]
    if i % 3 == 2:
        p = f.gen(rng)
        q = dict(p)
        q.update(rng.choice(({"data": rng.randrange(1000)},
                             {"jitter": rng.randrange(1, 1 << 20)},
                             {"aseed": rng.randrange(1 << 30)})))
        return {"kind": "concurrent", "op": f.name,
                "callers": [[p], [q] if rng.random() < 0.7 else [q, p]],
                "share": True, "readonly": rng.random() < 0.2,
                "scribble": rng.random() < 0.3, "filters": False,
                "sched": gen_sched(rng, p=rng.choice((0.3, 0.6, 1.0)))}
    p = f.gen(rng)
    if rng.random() < 0.1:
        f.enlarge(p)
    calls = [p] + [dict(p, jitter=rng.randrange(1, 1 << 20), one=1)
                   for _ in range(1 if f.heavy else 3)]
    rng.shuffle(calls)
    return {"kind": "history", "op": f.name, "callers": [calls],
            "share": True, "readonly": rng.random() < 0.2,
            "scribble": rng.random() < 0.5, "filters": False,
            "reuse": rng.random() < 0.3,
            "sched": gen_sched(rng, p=rng.choice((0.1, 0.5)))}


def pool_arrays(obj, pool):
    """Replace arrays by earlier ones of the same shape, type and content
    (sharing) so that callers really work on the same objects."""
    if isinstance(obj, np.ndarray):
        key = (obj.shape, obj.dtype.str, obj_hash(obj))
        return pool.setdefault(key, obj)
    if isinstance(obj, list):
        return [pool_arrays(o, pool) for o in obj]
    if isinstance(obj, tuple):
        return tuple(pool_arrays(o, pool) for o in obj)
    if isinstance(obj, dict):
        return {k: pool_arrays(v, pool) for k, v in obj.items()}
    return obj


def build(case):
    pool, out = {}, []
    for calls in case["callers"]:
        row = []
        for p in calls:
            a, k = funcs.FUNCS[p["f"]].args(p)
            if case["share"] and not case.get("reuse"):
                a, k = pool_arrays(a, pool), pool_arrays(k, pool)
            if case["readonly"]:
                _freeze(a, 0)
                _freeze(k, 0)
            row.append((a, k))
        out.append(row)
    return out


def ref_call(p, readonly):
    f = funcs.FUNCS[p["f"]]
    a, k = f.args(p)
    if f.par:
        k = dict(k, ncore=1)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f.fn()(*a, **k)


def settings():
    import gc
    import locale
    import logging
    import multiprocessing as mp
    import os
    import signal
    import threading
    import h5py
    from PIL import Image, ImageFile
    import sys
    import scipy.fft as sf
    return {"warning filters": [tuple(map(str, f)) for f in
                                warnings.filters],
            "floating-point error handling": str(np.geterr()),
            "print options": str(np.get_printoptions()),
            "working directory": os.getcwd(),
            "environment": obj_hash(dict(os.environ)),
            "recursion limit": sys.getrecursionlimit(),
            "standard streams": (id(sys.stdout), id(sys.stderr)),
            "fft workers": sf.get_workers(),
            "signal handlers": str([signal.getsignal(s) for s in
                                    (signal.SIGINT, signal.SIGTERM)]),
            "float repr": repr(np.float32(0.1)),
            "import path": list(sys.path), "umask": umask(),
            "switches": (gc.isenabled(), sys.getswitchinterval(),
                         threading.stack_size(), locale.setlocale(
                             locale.LC_ALL), mp.get_start_method(True)),
            "logging": (logging.root.level, len(logging.root.handlers),
                        logging.root.manager.disable),
            "hooks": (id(sys.excepthook), id(threading.excepthook)),
            "image reader": (ImageFile.LOAD_TRUNCATED_IMAGES,
                             Image.MAX_IMAGE_PIXELS),
            "parallel backend": str(joblib_backend()),
            "default of h5py": str([(k, getattr(h5py.get_config(), k)) for k
                                    in sorted(dir(h5py.get_config()))
                                    if not k.startswith("_")])}


def umask():
    import os
    m = os.umask(0o22)
    os.umask(m)
    return m


def joblib_backend():
    import joblib.parallel as jp
    c = getattr(getattr(jp, "_backend", None), "config", None)
    return sorted((k, str(v)) for k, v in c.items()) if c else None


def own_settings():
    """The settings that belong to the thread of the caller."""
    import decimal
    import scipy.fft as sf
    return {"floating-point error handling": str(np.geterr()),
            "error callback": str(np.geterrcall()),
            "buffer size": np.getbufsize(),
            "print options": str(np.get_printoptions()),
            "fft workers": sf.get_workers(),
            "decimal context": str(decimal.getcontext())}


def same_settings(old, name):
    new = own_settings()
    for k in old:
        if old[k] != new[k]:
            raise Violation("settings-changed", "%s of the calling thread "
                            "changed by %s" % (k, name), k)


def leaves(obj):
    if isinstance(obj, np.ndarray):
        yield obj
    elif isinstance(obj, (list, tuple)):
        for o in obj:
            yield from leaves(o)
    elif isinstance(obj, dict):
        for o in obj.values():
            yield from leaves(o)


def run(case, ctx):
    if case["kind"] == "files":
        run_files(case, ctx)
        return
    reuse = case.get("reuse") and not case["readonly"]
    refs = [[fresh(ref_call, p, case["readonly"]) for p in calls]
            for calls in case["callers"]]
    args = build(case)
    before = [[obj_hash(list(x)) for x in row] for row in args]
    inputs = [x for row in args for ak in row for x in leaves(list(ak))]
    locked = [x.flags.writeable for x in inputs]
    if case["filters"]:
        warnings.filterwarnings("error", message="a user's own filter")
    set0 = settings()
    results = [[None] * len(c) for c in case["callers"]]
    marks = [[None] * len(c) for c in case["callers"]]

    def caller(s, t):
        s.trace_here()
        import sys
        try:
            for n, p in enumerate(case["callers"][t]):
                f = funcs.FUNCS[p["f"]]
                a, k = args[t][n]
                if reuse and n:
                    a, k = refill(args[t][:n], a, k)
                own = own_settings()
                r = outcome(f.fn(), *a, **k)
                cur = s.current()
                cur.nopre += 1
                same_settings(own, p["f"])
                results[t][n] = r
                marks[t][n] = obj_hash(r[1]) if r[0] == "ok" else None
                if r[0] == "ok":
                    check(case, t, n, r, refs)
                    if case["scribble"]:
                        scribble(r[1], inputs)
                        marks[t][n] = obj_hash(r[1])
                cur.nopre -= 1
        finally:
            sys.settrace(None)

    def main(s):
        if len(case["callers"]) == 1:
            caller(s, 0)
            return
        ts = [s.spawn("caller%d" % t, lambda t=t: caller(s, t))
              for t in range(len(case["callers"]))]
        s.join(ts)
        for t in ts:
            if t.error is not None:
                raise t.error
    simulate(case, ctx, main, max_steps=3000000)
    ctx.nontrivial = True
    ctx.count("calls", sum(len(c) for c in case["callers"]))
    for t, calls in enumerate(case["callers"]):
        for n, p in enumerate(calls):
            r = results[t][n]
            if r[0] == "err":
                check(case, t, n, r, refs)
            elif reuse:
                pass
            elif marks[t][n] != obj_hash(r[1]):
                raise Violation("result-changed", "the result of %s changed "
                                "after it was returned" % p["f"], p["f"])
            if not reuse and before[t][n] != obj_hash(list(args[t][n])):
                raise Violation("input-modified", "inputs of %s changed"
                                % p["f"], p["f"])
            ctx.count("f_" + p["f"])
    if locked != [x.flags.writeable for x in inputs]:
        raise Violation("input-modified", "an input array became read-only "
                        "or writeable", "flags")
    set1 = settings()
    for k in set0:
        if set0[k] != set1[k]:
            raise Violation("settings-changed", "%s changed by calls of %s" % (
                k, sorted({p["f"] for c in case["callers"] for p in c})), k)


def check(case, t, n, r, refs):
    p = case["callers"][t][n]
    st, want, text = refs[t][n]
    where = "call %d of caller %d, %s" % (n, t, p["f"])
    if st == "bad":
        raise RuntimeError("reference of %s: %s %s" % (p["f"], want, text))
    if r[0] != st:
        if r[0] == "err":
            raise r[1]
        raise Violation("missing-error", "%s returned, alone it raises %s"
                        % (where, want), p["f"])
    if st == "err":
        if type(r[1]).__name__ != want:
            raise Violation("other-error", "%s raised %s, alone it raises %s"
                            % (where, type(r[1]).__name__, want), p["f"])
        return
    funcs.close(r[1], want, where, "wrong-result", p["f"])


def refill(old, a, k):
    """The caller keeps its new images in the arrays of the earlier call."""
    bufs = [x for ak in old for x in leaves(list(ak))]

    def put(x):
        if isinstance(x, np.ndarray):
            for b in bufs:
                if b.shape == x.shape and b.dtype == x.dtype and \
                        b.strides == x.strides and b.flags.writeable:
                    bufs[:] = [c for c in bufs
                               if not np.shares_memory(c, b)]
                    b[...] = x
                    return b
        return x
    new = [put(x) for x in a], {n: put(x) for n, x in k.items()}
    return tuple(new[0]), new[1]


def scribble(res, inputs):
    """The caller owns what it got and may overwrite it."""
    for x in leaves(res):
        if x.flags.writeable and x.dtype.kind in "fiu" and not any(
                np.shares_memory(x, y) for y in inputs):
            x[...] = 77


def shrink(c):
    if c["kind"] == "files":
        for k in ("deep",):
            if c[k]:
                yield dict(c, **{k: False})
        if c["rounds"] > 1:
            yield dict(c, rounds=1)
        for t in range(len(c["calls"])):
            if len(c["calls"]) > 2:
                d = copy.deepcopy(c)
                del d["calls"][t]
                yield d
            for q in shrink_io({"p": c["calls"][t][1], "sched": c["sched"]}):
                d = copy.deepcopy(c)
                d["calls"][t][1] = q["p"]
                d["sched"] = q["sched"]
                yield d
        return
    for t in range(len(c["callers"])):
        if len(c["callers"]) > 1:
            d = copy.deepcopy(c)
            del d["callers"][t]
            yield d
        for n in range(len(c["callers"][t])):
            if len(c["callers"][t]) > 1:
                d = copy.deepcopy(c)
                del d["callers"][t][n]
                yield d
            if c["callers"][t][n].get("ncore", 1) != 1:
                d = copy.deepcopy(c)
                d["callers"][t][n]["ncore"] = 1
                yield d
    for k in ("readonly", "scribble", "filters", "reuse"):
        if c.get(k):
            d = copy.deepcopy(c)
            d[k] = False
            yield d
    yield from shrink_func(c)
