"""C21: the external reconstruction libraries are used correctly."""
import copy
import warnings

import numpy as np
from scipy import ndimage as ndi

from dst import libs
from dst.common import gen_sched, outcome, simulate
from dst.engine import Violation
from dst.funcs import close
from dst.fresh import fresh
from dst.ioprops import shrink_sched

LEVEL = "fault_enumeration"
CASES = {"quick": 350, "thorough": 20000}
SECONDS = {"quick": 25, "thorough": 550}
RULE = ("One case = (gridrec or Astra wrapper, or a centre search using it; "
        "sinogram or stack with its type and layout, centre, angles, filter, "
        "method, padding, mask, worker count; library present, absent or "
        "failing at its n-th call; schedule). Expected: the image the library "
        "makes of each padded, centred sinogram on its own. Non-trivial: two "
        "or more tasks were ready at once, or a fault fired.")
REAL = ["algotom.rec.reconstruction: gridrec_reconstruction, "
        "astra_reconstruction and the searches that use them"]
STUB = ["tomopy, astra (dst/libs.py: same interface, object registry, "
        "validation, failures)", "joblib.Parallel worker pool (simulated)",
        "numba.cuda.is_available (in runs with a device)", "CPU count",
        "clock"]
ASSUMPTIONS = ["the stand-ins accept what the libraries accept"]
NOTE = ("Every sampled schedule and library failure gave the image of each "
        "sinogram on its own, or an error, with no object left in the "
        "library. Trusts the stand-ins of Tomopy and Astra (neither is "
        "installed); their numerical results are not the subject.")
AFILTERS = (None, "ram-lak", "hann", "shepp-logan", "parzen")
GFILTERS = (None, "shepp", "hann", "ramlak", "parzen")
CALLS = ("data2d.create", "create_projector", "algorithm.create",
         "algorithm.run", "data2d.get")


def gen(rng, i, tier):
    c = {"kind": ("astra", "gridrec", "astra", "metric")[i % 4],
         "n": rng.choice((0, 1, 2, 3, 4, 6)), "nrow": rng.choice((3, 4, 6)),
         "ncol": rng.choice((7, 8, 9, 12, 16)),
         "aseed": rng.randrange(1 << 30),
         "dtype": rng.choice(("float32", "float32", "float64")),
         "layout": rng.choice(("C", "C", "F", "strided", "readonly")),
         "content": rng.choice(("plain", "plain", "zeros", "negative")),
         "angles": rng.choice((None, None, "half", "part")),
         "ratio": rng.choice((1.0, None, 0.0, 0.7)),
         "filter": rng.randrange(5), "par": rng.choice((None, 0.5)),
         "pad": rng.choice((None, 0, 2, 3.0)),
         "gpad": rng.choice((True, False, 0, 3)),
         "method": rng.choice(libs.CPU + libs.CUDA),
         "iters": rng.choice((1, 2, 5)),
         "log": rng.random() < 0.5, "device": rng.random() < 0.25,
         "ncore": rng.choice((None, 1, 2, 2, 3, 4, 16)),
         "absent": rng.random() < 0.06, "fault": None,
         "metric": rng.choice(("entropy", "sharpness")),
         "lib": rng.choice(("astra", "gridrec")),
         "ncand": rng.choice((1, 2, 3)), "sched": gen_sched(rng)}
    c["center"] = round(rng.uniform(1.0, c["ncol"] - 2.0), 2)
    if c["method"] == "EM_CUDA" and not c["device"]:
        c["method"] = "FBP_CUDA"
    if rng.random() < 0.35:
        c["fault"] = {"call": rng.choice(CALLS) if uses(c) == "astra" else
                      "recon", "nth": rng.choice((1, 1, 2, 3, 4)),
                      "exc": rng.choice(("MemoryError", "Native",
                                         "Runtime"))}
    if rng.random() < 0.05:
        c["n"] = rng.randrange(7, 24)
        c["ncol"] += rng.randrange(0, 60)
    return c


def uses(c):
    return c["lib"] if c["kind"] == "metric" else c["kind"]


def make(c):
    r = np.random.RandomState(c["aseed"])
    shape = (c["nrow"], c["n"], c["ncol"]) if c["n"] and \
        c["kind"] != "metric" else (c["nrow"], c["ncol"])
    x = 0.2 + 0.7 * r.rand(*shape)
    if c["content"] == "zeros":
        x[r.rand(*shape) < 0.1] = 0.0
    elif c["content"] == "negative":
        x[r.rand(*shape) < 0.1] *= -1.0
    x = x.astype(c["dtype"])
    if c["layout"] == "F":
        x = np.asfortranarray(x)
    elif c["layout"] == "strided":
        big = np.zeros([2 * k for k in shape], x.dtype)
        v = big[tuple(slice(0, None, 2) for _ in shape)]
        v[...] = x
        x = v
    elif c["layout"] == "readonly":
        x.flags.writeable = False
    return x


def angles_of(c):
    if c["angles"] is None:
        return None
    return np.linspace(0, np.pi, c["nrow"]) if c["angles"] == "half" else \
        np.linspace(0.3, 2.5, c["nrow"])


def call(c, sino, ncore="case"):
    import algotom.rec.reconstruction as rec
    nc = c["ncore"] if ncore == "case" else ncore
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if c["kind"] == "astra":
            return rec.astra_reconstruction(
                sino, c["center"], angles=angles_of(c), ratio=c["ratio"],
                method=c["method"], num_iter=c["iters"],
                filter_name=AFILTERS[c["filter"]], pad=c["pad"],
                apply_log=c["log"], ncore=nc)
        if c["kind"] == "gridrec":
            return rec.gridrec_reconstruction(
                sino, c["center"], angles=angles_of(c), ratio=c["ratio"],
                filter_name=GFILTERS[c["filter"]], filter_par=c["par"],
                apply_log=c["log"], pad=c["gpad"], ncore=nc)
        a = max(1.0, c["center"] - 1.0)
        return rec.find_center_based_slice_metric(
            sino, a, a + (c["ncand"] - 1) * 0.5, 0.5, radius=0.5,
            metric=c["metric"], method=c["lib"], gpu=c["device"],
            angles=angles_of(c), ratio=c["ratio"], filter_name="hann",
            apply_log=c["log"], ncore=nc)


def expected(c, sino):
    """The image of one sinogram, made here."""
    import algotom.util.utility as util
    s = np.array(sino, order="C")
    if c["log"]:
        s[s <= 0.0] = 1.0
        s = -np.log(s)
    ang = angles_of(c)
    if ang is None:
        ang = np.deg2rad(np.linspace(0.0, 180.0, c["nrow"]))
    ncol = s.shape[1]
    if c["kind"] == "astra":
        pad = c["pad"]
        pad = min(int(0.15 * ncol), 150) if pad is None else int(pad)
        s = np.pad(s, ((0, 0), (pad, pad)), mode="edge")
        s = ndi.shift(s, (0, (s.shape[1] - 1.0) / 2.0 - (c["center"] + pad)),
                      mode="nearest")
        m = c["method"] if c["device"] else c["method"].replace("_CUDA", "")
        img = libs.astra_image(s, ang, m, AFILTERS[c["filter"]] or "ram-lak",
                               c["iters"])
        img = img[pad:pad + ncol, pad:pad + ncol]
    else:
        p = c["gpad"]
        if p is False:
            left = right = 0
        else:
            wide = ncol + 2 * (0 if p is True else p)
            wide = int(2 ** np.ceil(np.log2(1.0 * wide)))
            left = (wide - ncol) // 2
            right = wide - ncol - left
        s = np.pad(s, ((0, 0), (left, right)), mode="edge")
        img = libs.gridrec_image(s, ang, c["center"] + left,
                                 GFILTERS[c["filter"]] or "shepp", c["par"])
        img = img[left:left + ncol, left:left + ncol]
    if c["ratio"] is not None:
        ratio = c["ratio"] or min(c["center"], ncol - c["center"]) / (
            0.5 * ncol)
        img = img * util.make_circle_mask(ncol, ratio)
    return img


class device:
    """The package sees a CUDA device (kernels are never launched here)."""

    def __init__(self, on):
        self.on = on

    def __enter__(self):
        from numba import cuda
        self.keep = cuda.is_available
        if self.on:
            cuda.is_available = lambda: True
        return self

    def __exit__(self, *a):
        from numba import cuda
        cuda.is_available = self.keep


def alone(c):
    """One worker, no fault, no simulator."""
    with device(c["device"]), libs.installed(libs.Native()):
        return call(c, np.array(make(c), order="C"), ncore=1)


def attempt(c, ctx, sino, fault):
    nat = libs.Native([fault] if fault else [])
    with device(c["device"]), libs.installed(nat, absent=c["absent"]):
        st, res = simulate(c, ctx, lambda s: outcome(call, c, sino))
    return nat, st, res


def check_leaks(nat, name, how):
    if nat.misuse:
        raise Violation("library-misuse", "%s: %s" % (name, nat.misuse[0]),
                        name)
    if nat.live:
        kinds = sorted({k for k, _ in nat.live.values()})
        raise Violation("objects-left", "%s %s and left %d objects in the "
                        "library: %s" % (name, how, len(nat.live), kinds),
                        name + ":" + ",".join(kinds))


def run(case, ctx):
    c = case
    name = c["kind"] if c["kind"] != "metric" else "metric_" + c["lib"]
    ctx.count("kind_" + name)
    sino = make(c)
    before = sino.copy()
    if c["kind"] == "metric":
        rst, want, text = fresh(alone, c)
        if rst == "bad":
            raise RuntimeError("reference: %s %s" % (want, text))
    else:
        rst = "ok"
        want = expected(c, sino) if sino.ndim == 2 else np.stack(
            [expected(c, sino[:, i, :]) for i in range(c["n"])], axis=1)
    nat, st, res = attempt(c, ctx, sino, c["fault"])
    if not np.array_equal(before, sino):
        raise Violation("input-changed", name + " changed the sinogram", name)
    for k, n in nat.calls.items():
        ctx.count("call_" + k, n)
    if c["absent"]:
        ctx.count("library_absent")
        if st == "ok":
            raise Violation("missing-error", name + " returned without its "
                            "library", name)
        if not isinstance(res, (ValueError, ImportError)):
            raise Violation("unclear-error", "%s without its library raised "
                            "%s: %s" % (name, type(res).__name__, res), name)
        return
    if nat.fired:
        ctx.nontrivial = True
        ctx.fired.append(["library:" + nat.fired[0], 1])
        if st == "ok":
            raise Violation("failure-swallowed", "%s returned although %s "
                            "failed" % (name, nat.fired[0]), name)
        del res
        check_leaks(nat, name, "failed in " + nat.fired[0])
        nat, st, res = attempt(c, ctx, sino, None)
    if st != rst:
        if st == "err":
            raise Violation("fails", "%s raised %s: %s" % (
                name, type(res).__name__, res), name)
        raise Violation("missing-error", "%s returned; by one worker it "
                        "raises %s" % (name, want), name)
    check_leaks(nat, name, "returned")
    if st == "err":
        ctx.count("call_refused")
        return
    close(res, want, "%s of %s" % (name, sino.shape), "wrong-result", name,
          1e-4)


def warm(base):
    import random
    rng = random.Random(3)
    for i in range(40):
        c = gen(rng, i, "quick")
        if c["kind"] == "metric":
            outcome(alone, c)


def shrink(c):
    c = {k: v for k, v in c.items() if k != "_info"}
    for k, v in (("n", 2), ("n", 1), ("n", 0), ("nrow", 3), ("ncol", 7),
                 ("dtype", "float32"), ("layout", "C"), ("content", "plain"),
                 ("angles", None), ("ratio", None), ("filter", 0),
                 ("par", None), ("pad", 0), ("gpad", False), ("iters", 1),
                 ("log", False), ("device", False), ("ncand", 1),
                 ("ncore", 2), ("ncore", 1), ("fault", None)):
        if c[k] == v:
            continue
        d = copy.deepcopy(c)
        d[k] = v
        if k == "ncol":
            d["center"] = min(d["center"], 4.5)
        yield d
    yield from shrink_sched(c)
