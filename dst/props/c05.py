"""C05: vertical-slice reconstruction is independent of batching and workers."""
import copy
import math
import os
import warnings

import numpy as np

from dst.common import gen_sched, outcome
from dst.engine import Violation
from dst.fresh import fresh
from dst.funcs import close
from dst.ioprops import shrink_sched
from dst.props.c04 import FILTERS, angles_of, simulated_call

LEVEL = "exploration"
CASES = {"quick": 250, "thorough": 20000}
SECONDS = {"quick": 25, "thorough": 550}
RULE = ("One case = (one, several or differently oriented slices; "
        "projections from an array, an HDF5 dataset or a folder of tif "
        "files, their type; crop, range of projections, chunk size, flat and "
        "dark, filter, padding, mask, worker count and kind, number of "
        "kernel threads and dealing of the iterations, schedule). Expected: "
        "the single reconstruction of each slice from projections cropped "
        "beforehand, in one chunk, by one worker; the back-projection alone: "
        "an independent sum over all angles. Non-trivial: two or more "
        "threads or workers were ready at once, or more than one chunk.")
REAL = ["algotom.rec.vertrec: vertical_reconstruction, _multiple, "
        "_different_angles", "the back-projection kernels: their Python "
        "source run by simulated threads, and compiled code run by one "
        "thread", "HDF5 and tif files on a real scratch file system"]
STUB = ["numba's thread pool (simulated: dst/kernels.py)",
        "joblib.Parallel worker pool (simulated)", "CPU count", "clock"]
ASSUMPTIONS = ["numba compiles a prange loop to the semantics of its "
               "documentation"]


def gen(rng, i, tier):
    d, h, w = rng.choice((2, 3, 4, 5, 6, 9)), rng.choice((1, 2, 3, 5)), \
        rng.choice((5, 6, 8, 9))
    crop = [0, 0, 0, 0]
    if rng.random() < 0.5:
        crop = [rng.randrange(0, 3) for _ in range(4)]
    c = {"kind": rng.choice(("single", "multiple", "multiple", "angles",
                             "angles", "kernel")),
         "nproj": d, "h": h + crop[0] + crop[1], "w": w + crop[2] + crop[3],
         "crop": crop, "start": 0, "stop": -1,
         "source": rng.choice(("array", "array", "hdf", "tif")),
         "dtype": rng.choice(("float32", "float32", "float64", "uint16")),
         "content": rng.choice(("plain", "plain", "zeros", "negative")),
         "aseed": rng.randrange(1 << 30), "alpha": [
             rng.choice((0.0, 0.0, 90.0, 45.0, 180.0, 135.0,
                         round(rng.uniform(0, 180), 2)))
             for _ in range(3)],
         "flat": rng.random() < 0.4, "dark": rng.random() < 0.4,
         "angles": rng.choice((None, "half", "part", "f32", "random")),
         "chunk": rng.choice((None, 1, 2, 2, 3, 4, 30, 0)),
         "ramp": rng.choice(("after", "before", "before", None)),
         "filter": rng.choice(FILTERS), "pad": rng.choice((None, 0, 2)),
         "pad_mode": rng.choice(("edge", "constant")),
         "log": rng.random() < 0.6, "masking": rng.random() < 0.3,
         "ncore": rng.choice((None, 1, 2, 3, 16)),
         "prefer": rng.choice(("threads", "processes")),
         "progress": rng.random() < 0.2,
         "simk": rng.random() < 0.4, "threads": rng.choice((2, 3, 4)),
         "center": round(rng.uniform(0.3, w - 1.3), 3),
         "idx": [rng.randrange(w) for _ in range(3)],
         "step": rng.choice((1, 1, 2, 3)), "nidx": rng.choice((1, 2, 3)),
         "last": rng.random() < 0.3, "edge": rng.random() < 0.5,
         "sched": gen_sched(rng)}
    if rng.random() < 0.4:
        c["nproj"] = d + rng.randrange(0, 3)
        c["start"] = c["nproj"] - d
        c["stop"] = c["start"] + d
        if rng.random() < 0.5:
            c["nproj"] += 1
    if rng.random() < 0.15:     # more than the default chunk of projections
        more = rng.randrange(20, 120)
        c["simk"] = False
        c["nproj"] += more
        if c["stop"] != -1:
            c["stop"] += more
        c["chunk"] = rng.choice((None, 30, 7, 16)) if rng.random() < 0.4 \
            else rng.randrange(2, c["nproj"])
    elif rng.random() < 0.04:
        c["h"] += rng.randrange(20, 60)
        c["simk"] = False
    return c


def nrow(c):
    return (c["nproj"] if c["stop"] == -1 else c["stop"]) - c["start"]


def volume(c):
    r = np.random.RandomState(c["aseed"])
    shape = (c["nproj"], c["h"], c["w"])
    x = 0.2 + 0.7 * r.rand(*shape)
    if c["content"] == "zeros":
        x[r.rand(*shape) < 0.1] = 0.0
    elif c["content"] == "negative":
        x[r.rand(*shape) < 0.1] *= -1.0
    if c["dtype"] == "uint16":
        x = np.ceil(np.abs(x) * 200)
    flat = dark = None
    m = 200 if c["dtype"] == "uint16" else 1
    # averaged, so never of an unsigned type (whose differences wrap around)
    ft = "float64" if c["dtype"] == "float64" else "float32"
    if c["flat"]:
        flat = (m * (1.0 + 0.1 * r.rand(*shape[1:]))).astype(ft)
    if c["dark"]:
        dark = (m * 0.1 * r.rand(*shape[1:])).astype(ft)
        if c["flat"] and r.rand() < 0.3:
            dark[0, 0] = flat[0, 0]
    return x.astype(c["dtype"]), flat, dark


def kwargs(c):
    k = {"angles": angles_of(dict(c, nrow=nrow(c))),
         "ramp_filter": c["ramp"], "filter_name": c["filter"],
         "pad": c["pad"], "pad_mode": c["pad_mode"],
         "apply_log": c["log"], "gpu": c.get("gpu", False),
         "masking": c["masking"]}
    if c.get("block"):          # of a simulated GPU (C20)
        k["block"] = c["block"]
    return k


def slices(c):
    """[(index, alpha)] of the slices asked for."""
    w = c["w"] - c["crop"][2] - c["crop"][3]
    if c["kind"] == "angles":
        return [(c["idx"][k], c["alpha"][k]) for k in range(c["nidx"])]
    if c["kind"] == "multiple":
        a = min(c["idx"][0], c["idx"][1])
        b = w - 1 if c["last"] else max(c["idx"][0], c["idx"][1])
        return [(k, c["alpha"][0]) for k in range(a, b + 1, c["step"])]
    return [(c["idx"][0], c["alpha"][0])]


def singles(c):
    """Each slice on its own, everything cropped beforehand."""
    import algotom.rec.vertrec as vr
    x, flat, dark = volume(c)
    t, b, le, ri = c["crop"]
    s = (slice(t, c["h"] - b), slice(le, c["w"] - ri))
    stop = c["nproj"] if c["stop"] == -1 else c["stop"]
    x = np.ascontiguousarray(x[(slice(c["start"], stop),) + s])
    flat = None if flat is None else np.ascontiguousarray(flat[s])
    dark = None if dark is None else np.ascontiguousarray(dark[s])
    out = []
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for i, alpha in slices(c):
            out.append(vr.vertical_reconstruction(
                x.copy(), i, c["center"], alpha=alpha, flat_field=flat,
                dark_field=dark, chunk_size=len(x), ncore=1,
                prefer="threads", show_progress=False, **kwargs(c)))
    return out


def call(c, proj, flat, dark):
    import algotom.rec.vertrec as vr
    k = kwargs(c)
    k.update(flat_field=flat, dark_field=dark, crop=tuple(c["crop"]),
             proj_start=c["start"], proj_stop=c["stop"],
             chunk_size=c["chunk"], ncore=c["ncore"], prefer=c["prefer"],
             show_progress=c["progress"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if c["kind"] == "single":
            return vr.vertical_reconstruction(
                proj, c["idx"][0], c["center"], alpha=c["alpha"][0], **k)
        if c["kind"] == "multiple":
            s = slices(c)
            return vr.vertical_reconstruction_multiple(
                proj, s[0][0], -1 if c["last"] else max(
                    c["idx"][0], c["idx"][1]), c["center"],
                alpha=c["alpha"][0], step_index=c["step"], **k)
        s = slices(c)
        return vr.vertical_reconstruction_different_angles(
            proj, [a for a, _ in s], [a for _, a in s], c["center"], **k)


def source(c, ctx, x):
    """The projections as the case wants them, and what to close."""
    if c["source"] == "array":
        return x, lambda: None
    if c["source"] == "hdf":
        import h5py
        p = ctx.path("proj.hdf")
        r = np.random.RandomState(c["aseed"] + 3)
        with h5py.File(p, "w") as f:
            kw = {}
            if r.rand() < 0.5:
                kw = {"chunks": True, "compression": "gzip"}
            f.create_dataset("entry/data", data=x, **kw)
        f = h5py.File(p, "r")
        return f["entry/data"], f.close
    import algotom.io.converter as conv
    from PIL import Image
    d = ctx.path("proj")
    os.makedirs(d)
    for i in range(len(x)):
        Image.fromarray(x[i]).save(os.path.join(d, "img_%05d.tif" % i))
    return conv.HdfEmulatorFromTif(d), lambda: None


def run(case, ctx):
    c = case
    if c["source"] == "tif" and c["dtype"] == "float64":
        c = dict(c, dtype="float32")
    ctx.count("kind_" + c["kind"])
    ctx.count("source_" + c["source"])
    if c["kind"] == "kernel":
        run_kernel(c, ctx)
        return
    name = {"single": "vertical_reconstruction",
            "multiple": "vertical_reconstruction_multiple",
            "angles": "vertical_reconstruction_different_angles"}[c["kind"]]
    x, flat, dark = volume(c)
    st, want, text = fresh(singles, c)
    if st == "bad":
        raise RuntimeError("reference of %s: %s %s" % (name, want, text))
    proj, done = source(c, ctx, x.copy())
    gst, got = simulated_call(c, ctx, lambda: call(c, proj, flat, dark))
    if c["chunk"] and c["chunk"] < nrow(c):
        ctx.nontrivial = True
        ctx.count("chunks_%d" % min(9, -(-nrow(c) // c["chunk"])))
    if gst == "ok" and not np.array_equal(proj[:len(x)], x):
        raise Violation("input-changed", "%s changed the projections" % name,
                        name)
    done()
    if gst != st:
        if gst == "err":
            raise Violation("fails", "%s raised %s: %s; each slice alone "
                            "works" % (name, type(got).__name__, got), name)
        raise Violation("missing-error", "%s returned; a single slice raises"
                        " %s: %s" % (name, want, text), name)
    if st == "err":
        ctx.count("call_refused")
        return
    got = np.asarray(got)
    if c["kind"] == "single":
        got = got[None]
    if len(got) != len(want):
        raise Violation("wrong-result", "%s: %d slices, expected %d" % (
            name, len(got), len(want)), name)
    # float32 coordinates in one function, float64 in the other
    close(got, np.stack(want), name, "wrong-result", name, 3e-4)


def oracle(proj, ang, xl, yl, center, edge):
    proj = np.float64(proj)
    d, h, w = proj.shape
    out = np.zeros((h, len(xl)))
    good = np.ones(len(xl), bool)
    for n in range(d):
        f = xl * math.cos(ang[n]) + yl * math.sin(ang[n]) + center
        if not edge:
            good &= (np.abs(f) > 1e-3) & (np.abs(f - (w - 1)) > 1e-3)
        ok = ((f >= 0) & (f <= w - 1)) | edge
        for i in range(h):
            out[i] += np.where(ok, np.interp(np.clip(f, 0, w - 1),
                                             np.arange(w), proj[n, i]), 0.0)
    return out, good


def run_kernel(c, ctx):
    import algotom.rec.vertrec as vr
    x = volume(c)[0]
    ang = angles_of(dict(c, nrow=len(x)))
    if ang is None:
        ang = np.linspace(0, np.pi, len(x))
    r = np.random.RandomState(c["aseed"] + 9)
    w = c["w"]
    many = c["nidx"] > 1
    shape = (c["nidx"], w) if many else (1, w)
    xm, ym = r.uniform(-w / 2, w / 2, (2,) + shape)
    if many:
        xm, ym = np.float32(xm), np.float32(ym)
    want = [oracle(x, np.float64(ang), np.float64(xm[k]), np.float64(ym[k]),
                   c["center"], c["edge"]) for k in range(len(xm))]
    before = x.copy()

    def go():
        if many:
            return vr.vertical_back_projection_cpu_chunk(
                x, ang, xm, ym, c["center"], edge_pad=c["edge"])
        return vr.vertical_back_projection_cpu(
            x, ang, xm[0], ym[0], c["center"], edge_pad=c["edge"])
    st, got = simulated_call(c, ctx, go)
    if st == "err":
        raise got
    got = np.asarray(got) if many else np.asarray(got)[None]
    name = "vertical_back_projection_cpu" + ("_chunk" if many else "")
    for k, (w_, good) in enumerate(want):
        if got[k].shape != w_.shape:
            raise Violation("wrong-result", "%s: shape %s, expected %s" % (
                name, got[k].shape, w_.shape), name)
        close(np.where(good, got[k], 0), np.where(good, w_, 0),
              "%s[%d] (%s kernel)" % (name, k, "simulated" if c["simk"] else
                                      "compiled"), "wrong-result", name, 1e-4)
    if not np.array_equal(before, x):
        raise Violation("input-changed", "the kernel changed the projections",
                        name)


def warm(base):
    import random
    import tempfile
    rng = random.Random(5)
    seen = set()

    class Ctx:
        def path(self, *a):
            return os.path.join(self.d, *a)
    for _ in range(4000):
        c = gen(rng, 0, "quick")
        c["simk"] = False
        if c["source"] == "tif" and c["dtype"] == "float64":
            continue
        key = (c["kind"], c["dtype"], c["ramp"] == "before", c["log"],
               c["flat"] or c["dark"], c["source"], c["angles"] == "f32",
               c["prefer"], c["crop"] == [0, 0, 0, 0])
        if c["kind"] == "kernel":
            key = ("kernel",)
        if key in seen or len(seen) > 220:
            continue
        seen.add(key)
        ctx = Ctx()
        ctx.d = tempfile.mkdtemp(dir=base)
        try:
            if c["kind"] == "kernel":
                import algotom.rec.vertrec as vr
                for k in range(6):
                    x = np.ones((2, 3, 5), (np.float32, np.float64,
                                            np.uint16)[k % 3])
                    a = np.ones(2, (np.float32, np.float64)[k // 3])
                    m = np.ones((2, 5), np.float32)
                    vr.vertical_back_projection_cpu_chunk(x, a, m, m, 2.5,
                                                          edge_pad=True)
                    m = np.ones(5)
                    vr.vertical_back_projection_cpu(x, a, m, m, 2.5,
                                                    edge_pad=True)
                continue
            x, flat, dark = volume(c)
            proj, done = source(c, ctx, x)
            call(dict(c, ncore=1), proj, flat, dark)
            done()
            singles(c)
        except Exception:
            pass


def shrink(c):
    c = {k: v for k, v in c.items() if k != "_info"}
    for k, v in (("source", "array"), ("dtype", "float32"),
                 ("content", "plain"), ("flat", False), ("dark", False),
                 ("angles", None), ("chunk", 30), ("chunk", 2),
                 ("ramp", None), ("ramp", "after"), ("filter", None),
                 ("pad", 0), ("pad_mode", "edge"), ("log", False),
                 ("masking", False), ("ncore", 1), ("ncore", 2),
                 ("prefer", "threads"), ("progress", False),
                 ("simk", False), ("step", 1), ("nidx", 1), ("nidx", 2),
                 ("alpha", [0.0, 0.0, 0.0])):
        if c[k] == v:
            continue
        d = copy.deepcopy(c)
        d[k] = v
        yield d
    if c["crop"] != [0, 0, 0, 0]:
        d = copy.deepcopy(c)
        d["h"] -= sum(c["crop"][:2])
        d["w"] -= sum(c["crop"][2:])
        d["crop"] = [0, 0, 0, 0]
        yield d
    if c["start"] or c["stop"] != -1:
        yield dict(copy.deepcopy(c), start=0, stop=-1)
    yield from shrink_sched(c)
