"""C04: CPU reconstruction does not depend on threads or workers."""
import copy
import math
import warnings

import numpy as np

from dst.common import gen_sched, outcome, simulate
from dst.engine import Violation
from dst.fresh import fresh
from dst import kernels
from dst.funcs import close
from dst.ioprops import shrink_sched

LEVEL = "exploration"
CASES = {"quick": 250, "thorough": 20000}
SECONDS = {"quick": 25, "thorough": 550}
RULE = ("One case = (method, sinogram or stack of sinograms with its layout "
        "and type, centre, angles, filter, padding, mask, worker count, "
        "number of kernel threads and dealing of the iterations, schedule). "
        "Expected: each sinogram on its own, one worker, compiled kernel; "
        "the back-projection alone: an independent sum over all angles. "
        "Non-trivial: two or more threads or workers were ready at once.")
REAL = ["algotom.rec.reconstruction: fbp, bpf, dfi reconstruction and their "
        "filters", "the back-projection kernel: its Python source run by "
        "simulated threads, and compiled code run by one thread"]
STUB = ["numba's thread pool (simulated: dst/kernels.py)",
        "joblib.Parallel worker pool (simulated)", "CPU count", "clock"]
ASSUMPTIONS = ["numba compiles a prange loop to the semantics of its "
               "documentation (consecutive blocks of iterations, private "
               "scalars, reductions), and reads and writes of single array "
               "elements are atomic"]
METHODS = ("fbp", "fbp", "bpf", "bpf", "dfi")
FILTERS = (None, "hann", "bartlett", "blackman", "hamming", "nuttall",
           "parzen", "triang")


def make(c, n=None):
    """The sinogram(s) of a case."""
    r = np.random.RandomState(c["aseed"])
    shape = (c["nrow"], c["n"], c["ncol"]) if c["n"] else (
        c["nrow"], c["ncol"])
    x = 0.2 + 0.7 * r.rand(*shape)
    if c["content"] == "zeros":
        x[r.rand(*shape) < 0.1] = 0.0
    elif c["content"] == "negative":
        x[r.rand(*shape) < 0.1] *= -1.0
    elif c["content"] == "big":
        x *= 1000.0
    if c["dtype"].startswith(("u", "i")):
        x = np.ceil(np.abs(x) * 200)
    x = x.astype(c["dtype"])
    if c["layout"] == "F":
        x = np.asfortranarray(x)
    elif c["layout"] == "strided":
        big = np.zeros([2 * k for k in shape], x.dtype)
        v = big[tuple(slice(0, None, 2) for _ in shape)]
        v[...] = x
        x = v
    elif c["layout"] == "moved" and c["n"]:
        x = np.moveaxis(np.ascontiguousarray(np.moveaxis(x, 1, 0)), 0, 1)
    if c["layout"] == "readonly":
        x.flags.writeable = False
    return x


def angles_of(c):
    if c["angles"] is None:
        return None
    n = c["nrow"]
    if c["angles"] == "half":
        return np.linspace(0, np.pi, n)
    if c["angles"] == "part":
        return np.linspace(0.3, 2.5, n)
    if c["angles"] == "f32":
        return np.float32(np.linspace(0, 2 * np.pi, n))
    r = np.random.RandomState(c["aseed"] + 1)
    return r.uniform(0, np.pi, n)


def gen(rng, i, tier):
    n = rng.choice((0, 1, 2, 3, 3, 4, 5, 8))
    c = {"kind": "recon", "method": rng.choice(METHODS),
         "nrow": rng.choice((2, 3, 4, 5, 7)),
         "ncol": rng.choice((5, 6, 7, 8, 9, 11)), "n": n,
         "aseed": rng.randrange(1 << 30),
         "dtype": rng.choice(("float32", "float32", "float64", "uint16",
                              "int32", "uint8")),
         "layout": rng.choice(("C", "C", "F", "strided", "moved",
                               "readonly")),
         "content": rng.choice(("plain", "plain", "zeros", "negative",
                                "big")),
         "angles": rng.choice((None, None, "half", "part", "f32", "random")),
         "ratio": rng.choice((None, 1.0, 0.8, 0.0)),
         "filter": rng.choice(FILTERS), "pad": rng.choice((None, 0, 2, 5)),
         "pad_mode": rng.choice(("edge", "constant", "reflect")),
         "log": rng.random() < 0.5, "win": rng.random() < 0.3,
         "ncore": rng.choice((None, 1, 2, 2, 3, 4, 16)),
         "simk": rng.random() < 0.45, "threads": rng.choice((2, 3, 4, 8)),
         "sched": gen_sched(rng)}
    c["center"] = round(rng.uniform(0.3, c["ncol"] - 1.3), 3) if \
        rng.random() < 0.7 else rng.choice((
            0, (c["ncol"] - 1) / 2, c["ncol"] // 2, c["ncol"] - 1))
    if rng.random() < 0.3:
        c["kind"] = "kernel"
        c["n"] = 0
        c["layout"] = "C"
        if c["dtype"] in ("int32", "uint8"):
            c["dtype"] = "uint16"
        c["simk"] = rng.random() < 0.8
        c["edge"] = rng.random() < 0.5
        c["center"] = round(rng.uniform(0.3, c["ncol"] - 1.3), 3)
    if c["simk"]:
        # a position exactly at the edge of the detector is on one side of it
        # in compiled code and on the other in interpreted code
        c["center"] = round(rng.uniform(0.3, c["ncol"] - 1.3), 3)
    if c["method"] == "dfi" and c["log"]:
        # the logarithm is taken after an interpolation that turns zeros into
        # rounding errors of either sign
        c["content"] = "plain"
    if c["simk"] and c["n"] > 3:
        c["n"] = rng.choice((2, 3))
    if rng.random() < 0.08:
        enlarge(rng, c)
    return c


def enlarge(rng, c):
    """Many sinograms, many angles or a wide detector (compiled kernels)."""
    c["simk"] = False
    what = rng.choice(("many", "angles", "wide"))
    if what == "many" and c["kind"] == "recon":
        c["n"] = rng.randrange(9, 40)
    elif what == "wide":
        k = rng.randrange(20, 140)
        c["center"] += k / 2.0
        c["ncol"] += k
        c["n"] = min(c["n"], 4)
    else:
        c["nrow"] = rng.randrange(20, 200)
        c["n"] = min(c["n"], 4)


def args_of(c):
    k = {"angles": angles_of(c), "ratio": c["ratio"],
         "filter_name": c["filter"], "pad_mode": c["pad_mode"],
         "apply_log": c["log"], "ncore": c["ncore"]}
    if c["method"] == "dfi":
        k["pad_rate"] = {None: 0.25, 0: 0.0, 2: 0.5, 5: 1.0}[c["pad"]]
    else:
        k["pad"] = c["pad"]
        k["gpu"] = False
        if c["win"]:
            import algotom.rec.reconstruction as rec
            w = c["ncol"] + 2 * (c["pad"] if c["pad"] is not None else
                                 min(int(0.15 * c["ncol"]), 150))
            k["ramp_win"] = rec.make_2d_ramp_window(
                c["nrow"], w, c["filter"]) if c["method"] == "fbp" else \
                rec.make_circular_ramp_window(w, c["filter"])
    return k


def recon(c, sino, **over):
    import algotom.rec.reconstruction as rec
    k = dict(args_of(c), **over)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return getattr(rec, c["method"] + "_reconstruction")(
            sino, c["center"], **k)


def single(c, i):
    """Sinogram i on its own: plain array, one worker, compiled kernel."""
    x = make(c)
    if c["n"]:
        x = x[:, i, :]
    return recon(c, np.array(x, order="C"), ncore=1)


def singles(c):
    return [single(c, i) for i in range(max(1, c["n"]))]


def oracle(sino, angles, center, edge):
    """Sum over all angles, and the pixels where it is well defined."""
    sino = np.float64(sino)
    n, w = sino.shape
    ic = 0.5 * (w - 1)
    x = np.arange(w) - ic
    out = np.zeros((w, w))
    good = np.ones((w, w), bool)
    for i in range(n):
        t = -float(np.float32(angles[i]))
        f = x[None, :] * math.cos(t) + x[:, None] * math.sin(t) + \
            float(np.float32(center))
        if not edge:
            good &= (np.abs(f) > 1e-3) & (np.abs(f - (w - 1)) > 1e-3)
        inside = (f >= 0) & (f <= w - 1)
        val = np.interp(np.clip(f, 0, w - 1), np.arange(w), sino[i])
        out += np.where(inside | edge, val, 0.0)
    return out, good


def run(case, ctx):
    ctx.count("method_" + (case["method"] if case["kind"] == "recon" else
                           "kernel"))
    (run_kernel if case["kind"] == "kernel" else run_recon)(case, ctx)


def simulated_call(case, ctx, fn):
    """fn() under the simulator, with simulated kernel threads if asked."""
    keep = {"regions": 0}

    def main(s):
        if not case["simk"]:
            return outcome(fn)
        with kernels.simulated(s, case["sched"]["seed"],
                               case["threads"]) as reg:
            res = outcome(fn)
        keep["regions"] = reg.regions
        keep["threads"] = reg.threads
        return res
    st, res = simulate(case, ctx, main, max_steps=4000000)
    if keep["regions"]:
        ctx.count("kernel_regions", keep["regions"])
        ctx.count("kernel_threads_%d" % keep["threads"])
    return st, res


def run_kernel(case, ctx):
    import algotom.rec.reconstruction as rec
    sino = np.ascontiguousarray(make(case))
    ang = angles_of(case)
    if ang is None:
        ang = np.linspace(0, np.pi, case["nrow"])
    ang = np.float32(ang)
    want, good = oracle(sino, ang, case["center"], case["edge"])
    before = sino.copy()
    st, got = simulated_call(case, ctx, lambda: rec.back_projection_cpu(
        sino, ang, np.float32(case["center"]), edge_pad=case["edge"]))
    if st == "err":
        raise got
    got = np.asarray(got)
    if got.shape != want.shape:
        raise Violation("wrong-result", "back projection: shape %s, expected "
                        "%s" % (got.shape, want.shape), "back_projection")
    close(np.where(good, got, 0), np.where(good, want, 0), "back projection "
          "(%s kernel)" % ("simulated" if case["simk"] else "compiled"),
          "wrong-result", "back_projection", 1e-4)
    if not np.array_equal(before, sino):
        raise Violation("input-changed", "the kernel changed the sinogram",
                        "back_projection")


def run_recon(case, ctx):
    name = case["method"] + "_reconstruction"
    st, want, text = fresh(singles, case)
    if st == "bad":
        raise RuntimeError("reference of %s: %s %s" % (name, want, text))
    sino = make(case)
    before = sino.copy()
    gst, got = simulated_call(case, ctx, lambda: recon(case, sino))
    if gst != st:
        if gst == "err":
            raise Violation("fails", "%s of %s raised %s: %s; each sinogram "
                            "alone works" % (name, sino.shape,
                                             type(got).__name__, got), name)
        raise Violation("missing-error", "%s of a stack returned; a single "
                        "sinogram raises %s" % (name, want), name)
    if st == "err":
        ctx.count("call_refused")
        return
    if not np.array_equal(before, sino):
        raise Violation("input-changed", "%s changed the sinogram" % name,
                        name)
    exp = np.stack(want, axis=1) if case["n"] else want[0]
    close(got, exp, "%s of %s" % (name, sino.shape), "wrong-result", name,
          1e-4)


def warm(base):
    import random
    import algotom.rec.reconstruction as rec
    rng = random.Random(5)
    seen = set()
    for _ in range(4000):
        c = gen(rng, 0, "quick")
        key = (c["kind"], c["method"], c["layout"], c["dtype"] if
               c["dtype"] in ("float32", "float64") else "int", c["n"] > 1,
               c["log"])
        if key in seen:
            continue
        seen.add(key)
        try:
            if c["kind"] == "kernel":
                x = np.ascontiguousarray(make(c))
                rec.back_projection_cpu(
                    x, np.float32(np.linspace(0, 3, c["nrow"])),
                    np.float32(c["center"]), edge_pad=c["edge"])
            elif c["method"] != "dfi" or len(seen) < 30:
                recon(c, make(c), ncore=1)
                singles(c)
        except Exception:
            pass


def shrink(c):
    c = {k: v for k, v in c.items() if k != "_info"}
    for k, v in (("n", 2), ("n", 0), ("nrow", 2), ("ncol", 5),
                 ("dtype", "float32"), ("layout", "C"),
                 ("content", "plain"), ("angles", None), ("ratio", None),
                 ("filter", None), ("pad", 0), ("pad_mode", "edge"),
                 ("log", False), ("win", False), ("simk", False),
                 ("threads", 2), ("ncore", 2), ("ncore", 1)):
        if c[k] == v or (c["kind"] == "kernel" and k == "n"):
            continue
        d = copy.deepcopy(c)
        d[k] = v
        if k == "ncol":
            d["center"] = min(d["center"], 3.7)
        yield d
    yield from shrink_sched(c)
