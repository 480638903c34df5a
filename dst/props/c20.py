"""C20: a CUDA device changes nothing but the speed."""
import copy
import os
import shutil
import tempfile
import warnings

import numpy as np

from dst import gpu
from dst.common import gen_sched, outcome, simulate
from dst.engine import Violation
from dst.fresh import fresh
from dst.funcs import close
from dst.ioprops import shrink_sched
from dst.props import c04, c05, c06, c07

LEVEL = "fault_enumeration"
CASES = {"quick": 400, "thorough": 20000}
SECONDS = {"quick": 30, "thorough": 550}
RULE = ("One case = (GPU-enabled function and its arguments, block shape, "
        "order of the CUDA threads of every launch or their interleaving "
        "access by access, device present, absent, or failing at the n-th "
        "launch, worker count, schedule). Expected: the result by the CPU "
        "(to rounding), the result on a healthy device with threads in "
        "natural order, default blocks and one worker (exactly), no access "
        "outside an array, inputs unchanged; with the device absent the CPU "
        "result; a failed launch raises, and the call repeated on the healthy "
        "device is right. Non-trivial: two or more CUDA threads in another "
        "than the natural order, or a fault.")
REAL = ["algotom.rec.reconstruction, algotom.rec.vertrec, "
        "algotom.util.correlation, algotom.prep.phase: everything that "
        "accepts gpu=True, host code as is",
        "the source of every CUDA kernel and device function, compiled for "
        "the CPU or run by the interpreter"]
STUB = ["the CUDA device, its memory, scheduler and failures (simulated: "
        "dst/gpu.py)", "joblib.Parallel worker pool (simulated)",
        "CPU count", "clock"]
ASSUMPTIONS = ["numba compiles a CUDA kernel to the semantics of its source; "
               "reads and writes of single elements are atomic and in order",
               "positions do not fall exactly on the edge of the detector, "
               "where float32 and float64 arithmetic may disagree"]
FAMILIES = ("recon", "recon", "vert", "vert", "search", "speckle", "speckle",
            "speckle", "map", "back", "vback")
BLOCKS = ((16, 16), (16, 16), (8, 8), (32, 32), (1, 1), (3, 5), (8, 2),
          (2, 32), (1, 64), (5, 1))
RTOL = 1e-3


def off_grid(x):
    """Not a multiple of 1/4, so no detector edge is met exactly."""
    return x + 0.013 if abs(x * 4 - round(x * 4)) < 1e-2 else x


def gen(rng, i, tier):
    fam = rng.choice(FAMILIES)
    mode = rng.choice(("compiled",) * 5 + ("interleaved",))
    sched = gen_sched(rng)
    if fam in ("recon", "back"):
        while True:
            p = c04.gen(rng, 0, tier)
            if (p["kind"] == "recon") == (fam == "recon") and \
                    p["method"] != "dfi":
                break
        p["n"] = rng.choice((0, 1, 2, 3, 5))
        if p["n"] == 0 and p["layout"] == "moved":
            p["layout"] = "C"
        p["center"] = off_grid(p["center"])
    elif fam in ("vert", "vback"):
        while True:
            p = c05.gen(rng, 0, tier)
            if (p["kind"] == "kernel") == (fam == "vback"):
                break
        p["center"] = off_grid(p["center"])
    elif fam == "search":
        while True:
            p = c06.gen(rng, 0, tier)
            if p["kind"] in ("slice_list", "slice", "vertical") and \
                    p["method"] != "dfi":
                break
        p["gpu"] = True
        p["start"] = off_grid(p["start"])
        if mode == "interleaved":
            p["ncand"] = 1
    elif fam == "speckle":
        while True:
            p = c07.gen(rng, 0, tier)
            if p["kind"] not in ("signal",):
                break
        p["method"], p["sub"] = "diff", True
        p["gpu"] = "hybrid" if p["kind"] == "local2" and \
            rng.random() < 0.25 else True
        if p["kind"] == "retrieve":
            p["surf"], p["dtype"] = "FC", "float32"
        if p["kind"] in ("umpa", "retrieve"):
            # enough pixels for the unknowns of the cost function, which is
            # rounding noise otherwise
            p["depth"] = max(3, p["depth"])
            p["filt"] = rng.choice((None, "hamming"))
    else:
        m = rng.choice((1, 2, 3))
        p = {"kind": rng.choice(("map", "map", "shift")), "margin": m,
             "dim": rng.choice((2, 3)), "depth": rng.choice((1, 2, 4)),
             "h": rng.choice((3, 4, 5, 8)), "w": rng.choice((3, 4, 7)),
             "dh": rng.choice((0, 1, 2, 5)), "dw": rng.choice((0, 1, 4)),
             "dtype": rng.choice(("float32", "float32", "float64",
                                  "uint16")),
             "layout": rng.choice(("C", "C", "F", "strided", "readonly")),
             "axis": rng.choice((None, None, 0, 1)), "simk": False,
             "aseed": rng.randrange(1 << 30)}
    p["simk"] = False
    if mode == "interleaved":
        small(p, fam)
    p.pop("sched", None)
    c = {"kind": fam, "p": p, "mode": mode, "block": list(
        rng.choice(BLOCKS if mode == "compiled" else BLOCKS[2:])),
        "dseed": rng.randrange(1 << 30),
        "order": rng.choice(("all", "all", "blocks", "reverse",
                             "transposed", "natural")),
        "resident": rng.choice((2, 3, 4, 8)),
        "fault": rng.choice((None,) * 6 + ("absent", 1, 1, 2, 3, 5)),
        "ncore": p.get("ncore"), "sched": sched}
    if mode == "interleaved" and c["block"] == [32, 32]:
        c["block"] = [2, 3]
    return c


def small(p, fam):
    """Little work for the interpreter."""
    if fam in ("recon", "back"):
        p["nrow"], p["ncol"] = min(3, p["nrow"]), min(6, p["ncol"])
        p["n"] = min(2, p["n"])
        p["center"] = min(p["center"], 3.71)
        if p["pad"] == 5:
            p["pad"] = 2
    elif fam in ("vert", "vback"):
        pass
    elif fam == "speckle":
        p["win"], p["margin"] = 3, min(2, p["margin"])
        p["depth"] = min(3, p["depth"])
        e = p["margin"] + 1
        p["h"], p["w"] = 2 * e + 3, 2 * e + 2
        if p["kind"] == "samples":
            p["h"] += 6
            p["w"] += 6
        if p["kind"] == "retrieve":
            p["margin"] = 2
            p["h"], p["w"] = 9, 9
        p["npoint"] = min(3, p["npoint"])


# ------------------------------------------------------------------ the calls
def sub(c, **over):
    p = dict(c["p"], sched=c["sched"])
    p.update(over)
    return p


def maps(p):
    r = np.random.RandomState(p["aseed"] % (1 << 31))
    h, w = p["h"], p["w"]
    if p["kind"] == "shift":
        h, w = h + 2 * p["margin"], w + 2 * p["margin"]
        sh, sw = p["margin"], p["margin"]
        if p["axis"] == 0:
            sw = 0
        elif p["axis"] == 1:
            sh = 0
        small_ = (slice(sh, h - sh), slice(sw, w - sw))
    else:
        small_ = (slice(0, h), slice(0, w))
        h, w = h + p["dh"], w + p["dw"]
    a = 0.2 + r.rand(p["depth"], h, w)
    b = np.roll(a, (r.randint(-1, 2), r.randint(-1, 2)), (1, 2))
    b = (0.7 * b + 0.3 * r.rand(*a.shape))[(slice(None),) + small_]
    if p["dim"] == 2:
        a, b = a[0], b[0]
    if p["dtype"] == "uint16":
        a, b = np.ceil(a * 9000), np.ceil(b * 9000)
    out = []
    for x in (a, b):
        x = np.array(x.astype(p["dtype"]), order="C")
        if p["layout"] == "F":
            x = np.asfortranarray(x)
        elif p["layout"] == "strided":
            big = np.zeros([2 * k for k in x.shape], x.dtype)
            v = big[tuple(slice(0, None, 2) for _ in x.shape)]
            v[...] = x
            x = v
        elif p["layout"] == "readonly":
            x.flags.writeable = False
        out.append(x)
    return out


def back_args(p):
    """Arguments of the back-projection kernels, and the function name."""
    sino = c04.make(p)
    ang = c04.angles_of(p)
    if ang is None:
        ang = np.linspace(0, np.pi, p["nrow"])
    return sino, ang


def vback_args(p):
    x = c05.volume(p)[0]
    ang = c05.angles_of(dict(p, nrow=len(x)))
    if ang is None:
        ang = np.linspace(0, np.pi, len(x))
    r = np.random.RandomState(p["aseed"] + 9)
    w = p["w"]
    shape = (p["nidx"], w) if p["nidx"] > 1 else (1, w)
    xm, ym = r.uniform(-w / 2, w / 2, (2,) + shape)
    return x, ang, np.float32(xm), np.float32(ym)


def inputs(c, ctx=None):
    """(arguments the caller may look at afterwards, function to close)."""
    fam, p = c["kind"], c["p"]
    if fam == "recon":
        return [c04.make(p)], lambda: None
    if fam == "back":
        return list(back_args(p)), lambda: None
    if fam == "vback":
        return list(vback_args(p)), lambda: None
    if fam == "map":
        return maps(p), lambda: None
    if fam == "vert":
        x, flat, dark = c05.volume(p)
        done = lambda: None     # noqa
        if ctx is not None:
            x, done = c05.source(p, ctx, x)
        return [x, flat, dark], done
    if fam == "speckle":
        a = list(c07.images(p, p["kind"] in ("local2d", "global")))
        done = lambda: None     # noqa
        if ctx is not None and p["hdf"] and p["kind"] in (
                "local1", "local2", "local2d", "umpa"):
            import h5py
            fh = h5py.File(ctx.path("speckle.h5"), "w")
            ch = True if p["hdf"] == "chunked" else None
            a = [fh.create_dataset(n, data=q, chunks=ch)
                 for n, q in zip("ab", a)]
            done = fh.close
        return a, done
    return [], lambda: None     # search: makes its own


def invoke(c, args, gpu_on, block=None, **over):
    """The call of a case; with or without the device."""
    import algotom.rec.reconstruction as rec
    import algotom.rec.vertrec as vr
    import algotom.util.correlation as corl
    fam, p = c["kind"], sub(c, **over)
    blk = tuple(block) if block else None
    kw = {"block": blk} if gpu_on and blk else {}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if fam == "recon":
            return c04.recon(p, args[0], gpu=gpu_on, **kw)
        if fam == "vert":
            return np.asarray(c05.call(dict(p, gpu=gpu_on, block=blk),
                                       *args))
        if fam == "search":
            return c06.call(dict(p, gpu=gpu_on))
        if fam == "speckle":
            if blk and p["kind"] in ("global", "stacks", "samples"):
                blk = blk[0] * blk[1]
            return c07.call(dict(p, gpu=p["gpu"] if gpu_on else False,
                                 block=blk if gpu_on else None), args)
        if fam == "map":
            if p["kind"] == "map":
                return corl.generate_correlation_map(*args, gpu=gpu_on, **kw)
            return corl.find_shift_based_correlation_map(
                args[0], args[1], margin=p["margin"], axis=p["axis"],
                dim=2 if p["axis"] is None else 1, gpu=gpu_on, **kw)
        if fam == "back":
            sino, ang = args
            many = "_chunk" if sino.ndim == 3 else ""
            if gpu_on:
                return getattr(rec, "back_projection_gpu" + many)(
                    sino, ang, p["center"], edge_pad=p["edge"], **kw)
            # each sinogram on its own, an independent sum over all angles
            if not many:
                sino = sino[:, None, :]
            return [c04.oracle(sino[:, k, :], np.float32(ang), p["center"],
                               p["edge"]) for k in range(sino.shape[1])]
        x, ang, xm, ym = args
        if gpu_on:
            if p["nidx"] > 1:
                return vr.vertical_back_projection_gpu_chunk(
                    x, ang, xm, ym, p["center"], edge_pad=p["edge"], **kw)
            return vr.vertical_back_projection_gpu(
                x, ang, xm[0], ym[0], p["center"], edge_pad=p["edge"], **kw)
        return [c05.oracle(x, np.float64(np.float32(ang)), np.float64(xm[k]),
                           np.float64(ym[k]), p["center"], p["edge"])
                for k in range(len(xm))]


def one_chunk(c):
    """The chunk size only splits the work of the device."""
    p = c["p"]
    if c["kind"] == "speckle":
        if p["kind"] == "local2d":
            # normalises what it takes to the device, not the whole image
            return not p["norm"]
        return c07.splits(p)
    return c["kind"] != "search"


def by_cpu(c):
    fam, p = c["kind"], c["p"]
    if fam == "recon":
        return c04.singles(sub(c, gpu=False))
    if fam == "vert":
        return c05.singles(sub(c, gpu=False))
    over = {"ncore": 1}
    if fam == "speckle" and c07.splits(p):
        over["chunk"] = None
    if fam == "search" and p["metric"] == "entropy":
        return None
    args = inputs(c)[0]
    if fam == "map":
        args = [np.array(x, order="C") for x in args]
    return invoke(c, args, False, **over)


def natural(c):
    """On a healthy device, in natural order, by one worker."""
    over = {"ncore": 1}
    if one_chunk(c) and "chunk" in c["p"]:
        over["chunk"] = None if c["kind"] == "speckle" else 1000
    spec = {"mode": "compiled", "seed": 0, "order": "natural",
            "absent": False}
    with gpu.simulated(None, spec):
        return invoke(c, inputs(c)[0], True, **over)


def run(case, ctx):
    c = case
    if c["kind"] == "vert" and c["p"]["source"] == "tif" and \
            c["p"]["dtype"] == "float64":
        c = dict(c, p=dict(c["p"], dtype="float32"))
    fam, p = c["kind"], c["p"]
    name = "%s %s" % (fam, p.get("method") if fam == "recon" else
                      p.get("kind"))
    site = name
    ctx.count("kind_" + name.replace(" ", "_"))
    ctx.count("mode_" + c["mode"])
    cst, cpu, ctext = fresh(by_cpu, c)
    nst, nat, ntext = fresh(natural, c)
    if "bad" in (cst, nst):
        raise RuntimeError("reference of %s: %s %s %s %s" % (
            name, cpu, ctext, nat, ntext))
    args, done = inputs(c, ctx)
    first = inputs(c)[0]
    spec = {"mode": c["mode"], "seed": c["dseed"], "order": c["order"],
            "absent": c["fault"] == "absent", "resident": c["resident"]}
    if isinstance(c["fault"], int):
        spec["fail"] = c["fault"]
        spec["error"] = ("[2] Call to cuMemAlloc results in "
                         "CUDA_ERROR_OUT_OF_MEMORY", "[700] Call to "
                         "cuMemcpyDtoH results in UNKNOWN_CUDA_ERROR",
                         "[719] Call to cuLaunchKernel results in "
                         "CUDA_ERROR_LAUNCH_FAILED")[c["dseed"] % 3]
    keep = {}

    def main(s):
        with gpu.simulated(s, spec) as dev:
            res = outcome(invoke, c, args, True, c["block"])
            keep["dev"] = dev
        again = None
        if dev.failed or spec["absent"]:
            with gpu.simulated(s, dict(spec, absent=False, fail=None)):
                again = outcome(invoke, c, args, True, c["block"])
        return res, again
    (st, got), again = simulate(c, ctx, main, max_steps=8000000)
    dev = keep["dev"]
    ctx.count("launches", dev.launches)
    ctx.count("cuda_threads", dev.threads)
    if dev.threads > 1 and (c["order"] != "natural" or
                            c["mode"] == "interleaved"):
        ctx.nontrivial = True
    for g, w in zip(args, first):
        if w is not None and not np.array_equal(g[:len(w)], w):
            raise Violation("input-changed", "%s changed its input" % name,
                            site)
    done()
    if dev.failed:
        ctx.nontrivial = True
        ctx.fired.append(["device_absent" if spec["absent"] else
                          "launch_failed", 1])
        if st == "ok" and not spec["absent"] and cst == nst == "ok":
            # it may be answered without the device
            judge(c, got, cpu, None, name, "wrong-after-fault")
    elif spec["absent"]:
        ctx.nontrivial = True
        ctx.fired.append(["device_absent", 1])
        expect(c, st, got, cst, cpu, None, name, "no device")
    else:
        expect(c, st, got, nst, nat, cpu if cst == "ok" else None, name,
               "device", nat)
        if nst != cst:
            raise Violation("fails" if nst == "err" else "missing-error",
                            "%s on a device: %s %s; by the CPU: %s %s" % (
                                name, nst, nat if nst == "err" else "", cst,
                                cpu if cst == "err" else ""), site)
    if dev.failed and spec["absent"] and c["kind"] not in ("back", "vback") \
            and p.get("gpu") != "hybrid" and st == "err" and cst == "ok":
        raise Violation("no-fallback", "%s without a device raised %s: %s; "
                        "the CPU can do it" % (name, type(got).__name__,
                                               got), site)
    if again is not None:
        expect(c, again[0], again[1], nst, nat, cpu if cst == "ok" else None,
               name, "the device, after a failure", nat)


def expect(c, st, got, wst, want, cpu, name, where, nat=None):
    if st != wst:
        if st == "err":
            raise Violation("fails", "%s with %s raised %s: %s" % (
                name, where, type(got).__name__, got), name)
        raise Violation("missing-error", "%s with %s returned; expected %s" %
                        (name, where, want), name)
    if st == "err":
        return
    judge(c, got, want if nat is None else cpu, nat, name, "wrong-result")


def judge(c, got, cpu, nat, name, cls):
    fam, p = c["kind"], c["p"]
    if nat is not None and (c["mode"] == "compiled" or fam != "search"):
        close(got, nat, "%s in another order, block or chunk" % name, cls,
              name, 1e-5 if c["mode"] == "compiled" and
              fam not in ("vert",) else RTOL)
    if cpu is None:
        return
    what = "%s against the CPU" % name
    if fam == "recon":
        exp = np.stack(cpu, axis=1) if p["n"] else cpu[0]
        close(got, exp, what, cls, name, RTOL)
    elif fam == "vert":
        g = got[None] if p["kind"] == "single" else got
        close(g, np.stack(cpu), what, cls, name, RTOL)
    elif fam in ("back", "vback"):
        g = np.asarray(got)
        if fam == "back":
            g = np.moveaxis(g, 1, 0) if g.ndim == 3 else g[None]
        else:
            g = g if p["nidx"] > 1 else g[None]
        if len(g) != len(cpu):
            raise Violation(cls, "%s: shape %s" % (name, g.shape), name)
        for k, (w, good) in enumerate(cpu):
            if g[k].shape != w.shape:
                raise Violation(cls, "%s: shape %s, expected %s" % (
                    name, g[k].shape, w.shape), name)
            close(np.where(good, g[k], 0), np.where(good, w, 0),
                  "%s[%d] against a sum over all angles" % (name, k), cls,
                  name, RTOL)
    elif fam == "search":
        if p["kind"] != "slice" and p["retmetric"]:
            close(got, cpu, what, cls, name, RTOL)
    elif fam == "speckle" and p["kind"] == "local2d" and p["norm"] and \
            p["chunk"] is not None:
        return
    else:
        close(got, cpu, what, cls, name, RTOL)


# -------------------------------------------------------------------- warm-up
def warm(base):
    import random
    rng = random.Random(5)
    seen = set()

    class Ctx:
        def path(self, *a):
            return os.path.join(self.d, *a)
    for _ in range(6000):
        c = gen(rng, 0, "quick")
        p = c["p"]
        key = warm_key(c)
        if key in seen:
            continue
        seen.add(key)
        ctx = Ctx()
        ctx.d = tempfile.mkdtemp(dir=base)
        try:
            by_cpu(c)
        except Exception:
            pass
        try:
            natural(c)
            args, done = inputs(c, ctx)
            spec = {"mode": "compiled", "seed": 0, "order": "natural",
                    "absent": False}
            if c["kind"] in ("vert", "speckle"):
                with gpu.simulated(None, spec):
                    invoke(dict(c, p=dict(p, ncore=1)), args, True)
            done()
        except Exception:
            pass
        shutil.rmtree(ctx.d, ignore_errors=True)


def warm_key(c):
    fam, p = c["kind"], c["p"]
    if fam == "recon":
        return (fam, p["method"], p["dtype"], p["n"] > 0, p["log"],
                p["layout"] in ("F", "strided", "moved"))
    if fam == "vert":
        return (fam, p["kind"], p["dtype"], p["log"], p["ramp"] == "before",
                p["angles"] == "f32", p["source"], p["flat"] or p["dark"])
    if fam == "search":
        return (fam, p["kind"], p["method"], p["dtype"], p["log"])
    if fam == "speckle":
        return (fam, p["kind"], p["dtype"], p["gpu"], p["dark"],
                p["norm"] or p["norm_global"], p["hdf"])
    if fam == "map":
        return (fam, p["dim"], p["dtype"], p["layout"])
    return (fam, (p["n"] if fam == "back" else p["nidx"] - 1) > 0,
            p["dtype"])


def shrink(c):
    c = {k: v for k, v in c.items() if k != "_info"}
    for k, v in (("fault", None), ("order", "natural"), ("order", "reverse"),
                 ("block", [16, 16]), ("block", [8, 8]),
                 ("mode", "compiled"), ("resident", 2)):
        if c[k] != v:
            d = copy.deepcopy(c)
            d[k] = v
            yield d
    mod = {"recon": c04, "back": c04, "vert": c05, "vback": c05,
           "search": c06, "speckle": c07}.get(c["kind"])
    if mod is not None:
        for q in mod.shrink(sub(c)):
            if q["sched"] != c["sched"]:
                continue
            q = dict(q)
            q.pop("sched")
            if q.get("gpu") != c["p"].get("gpu") or q == c["p"]:
                continue
            q["center"] = off_grid(q["center"]) if "center" in q else None
            d = copy.deepcopy(c)
            d["p"] = q
            yield d
    else:
        for k, v in (("dim", 2), ("depth", 1), ("dtype", "float32"),
                     ("layout", "C"), ("h", 3), ("w", 3), ("dh", 0),
                     ("dw", 0)):
            if c["p"][k] != v:
                d = copy.deepcopy(c)
                d["p"][k] = v
                yield d
    yield from shrink_sched(c)
