"""C18: results do not depend on the host."""
import warnings

import numpy as np

from dst import funcs, ioops
from dst.common import gen_sched, outcome, simulate
from dst.engine import Violation
from dst.fresh import fresh
from dst.funcprops import shrink as shrink_func
from dst.ioprops import run_clean, gen_clean, shrink as shrink_io
__all__ = ["gen", "run", "shrink", "warm"]

LEVEL = "exploration"
CASES = {"quick": 250, "thorough": 20000}
SECONDS = {"quick": 25, "thorough": 550}
RULE = ("One case = (function or file operation and arguments, number of "
        "CPUs of the simulated host 1..256, clock behaviour, progress "
        "display, automatic worker count, GPU requested on a host without "
        "one, schedule). Expected: the same call by a single worker on a "
        "plain host, in a fork of the pristine process. Non-trivial: the "
        "simulated host differs from the plain one (always).")
REAL = ["the in-memory functions of algotom.prep, rec, util and post and "
        "all file operations"]
STUB = ["CPU count", "clock (frozen, backward, jumping)",
        "joblib.Parallel worker pool (simulated)", "directory listing order"]
ASSUMPTIONS = ["standard output can be written to",
               "no GPU is present (none can be simulated here)"]
NAMES = list(funcs.FUNCS)
PAR = [n for n, f in funcs.FUNCS.items() if f.par]
OPN = [n for n, o in ioops.OPS.items()] + ["reslice", "downsample", "rescale",
                                         "stats", "load_multi", "save_multi",
                                         "emulator", "map_hdf", "visual"]
CPUS = (1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 12, 16, 31, 64, 256)


def warm(base):
    funcs.warm(base)
    ioops.warm(base)


def gen(rng, i, tier):
    if rng.random() < 0.35:
        c = gen_clean(rng, OPN, deep=0.02)
        c["kind"] = "io"
        for k in ("ncore",):
            if k in c["p"] and rng.random() < 0.7:
                c["p"][k] = None
        for k in ("progress", "show_progress"):
            if k in c["p"]:
                c["p"][k] = rng.random() < 0.7
    else:
        f = funcs.FUNCS[rng.choice(PAR if rng.random() < 0.65 else NAMES)]
        p = f.gen(rng)
        if f.par and rng.random() < 0.8:
            p["ncore"] = None
        if rng.random() < 0.15:
            f.enlarge(p)
        c = {"kind": "func", "op": f.name, "p": p, "sched": gen_sched(rng),
             "gpu": rng.random() < 0.4, "progress": rng.random() < 0.5}
    c["sched"]["ncpu"] = rng.choice(CPUS)
    c["sched"]["clock"] = rng.choice(("frozen", "backward", "jumps",
                                      "epoch0", "steady"))
    return c


def call(p, gpu=False, progress=False, ncore="given"):
    f = funcs.FUNCS[p["f"]]
    a, k = f.args(p)
    k = dict(k)
    if gpu and k.get("gpu") is False:
        k["gpu"] = True
    if progress and "show_progress" in k:
        k["show_progress"] = True
    if f.par and ncore != "given":
        k["ncore"] = ncore
    np.random.seed(1234)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f.fn()(*a, **k)


def run(case, ctx):
    ctx.nontrivial = True
    ctx.count("ncpu_%d" % case["sched"]["ncpu"])
    ctx.count("clock_" + case["sched"]["clock"])
    if case["kind"] == "io":
        run_clean(case, ctx)
        return
    p = case["p"]
    st, want, text = fresh(call, p, False, False, 1)
    if st == "bad":
        raise RuntimeError("reference of %s: %s %s" % (p["f"], want, text))
    gst, got = simulate(case, ctx, lambda s: outcome(
        call, p, case["gpu"], case["progress"]), max_steps=3000000)
    ctx.count("f_" + p["f"])
    if gst != st:
        if gst == "err":
            raise Violation("fails-on-host", "%s raised %s: %s on a host with"
                            " %s CPUs, clock %s" % (
                                p["f"], type(got).__name__, got,
                                case["sched"]["ncpu"],
                                case["sched"]["clock"]), p["f"])
        raise Violation("missing-error", "%s returned, on a plain host it "
                        "raises %s" % (p["f"], want), p["f"])
    if st == "ok":
        funcs.close(got, want, p["f"], "wrong-result", p["f"])


def shrink(c):
    if c["kind"] == "io":
        yield from shrink_io(c)
        return
    for k in ("gpu", "progress"):
        if c[k]:
            yield dict(c, **{k: False})
    yield from shrink_func(c)
