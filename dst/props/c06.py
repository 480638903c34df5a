"""C06: centre and overlap searches do not depend on workers."""
import copy
import warnings

import numpy as np
from scipy import ndimage as ndi

from dst import ioops, kernels, methods
from dst.common import gen_sched, outcome, simulate
from dst.engine import Violation
from dst.fresh import fresh
from dst.funcs import close
from dst.ioprops import gen_clean, run_clean, shrink as shrink_io, \
    shrink_sched

LEVEL = "exploration"
CASES = {"quick": 250, "thorough": 20000}
SECONDS = {"quick": 25, "thorough": 550}
RULE = ("One case = (search, images, range of candidates, metric, options, "
        "worker count and kind, schedule, simulated or compiled kernels), or "
        "a visual search into a folder. Expected: the search by one worker, "
        "and for metric lists the metric of each candidate computed on its "
        "own. Non-trivial: two or more tasks were ready at once.")
REAL = ["algotom.prep.calculation: centre and overlap searches",
        "algotom.rec.reconstruction and algotom.rec.vertrec: centre searches "
        "by slice metrics, visual searches",
        "files on a real scratch file system"]
STUB = ["joblib.Parallel worker pool (simulated)", "numba's thread pool "
        "(simulated in part of the runs)", "CPU count", "clock",
        "directory listing order"]
ASSUMPTIONS = ["two candidates do not have equal metrics up to rounding"]
KINDS = ("coarse", "fine", "vo", "search", "search", "overlap", "multi",
         "c360", "proj", "slice_list", "slice_list", "slice", "vertical",
         "vertical", "visual", "visual")


def gen(rng, i, tier):
    kind = rng.choice(KINDS)
    if kind == "visual":
        c = gen_clean(rng, ["visual"], deep=0.02)
        c["kind"] = "visual"
        return c
    w = rng.choice((24, 25, 30, 33))
    c = {"kind": kind, "aseed": rng.randrange(1 << 30),
         "rows": rng.choice((8, 11, 16)), "w": w,
         "dtype": rng.choice(("float32", "float32", "float64", "uint16")),
         "denoise": rng.random() < 0.5, "norm": rng.random() < 0.4,
         "use_overlap": rng.random() < 0.4,
         "side": rng.choice((0, 1, 0, 1, None)),
         "win": rng.choice((6, 7, 8, 10, 40)),
         "ncore": rng.choice((None, 1, 2, 2, 3, 4, 16)),
         "prefer": rng.choice(("threads", "processes")),
         "start": rng.choice((w // 2 - 3, w // 2 - 2.5, w // 2 - 1)),
         "ncand": rng.choice((1, 2, 3, 5)), "step": rng.choice((0.5, 1, 0.25)),
         "ratio": rng.choice((0.3, 0.5, 1.0)),
         "drop": rng.choice((None, 2)), "dsp": rng.random() < 0.5,
         "radius": rng.choice((0, 1, 2)),
         "method": rng.choice(("fbp", "bpf", "dfi", "dfi")),
         "metric": rng.choice(("entropy", "sharpness", "custom", "custom",
                               "autocorrelation")),
         "invert": rng.random() < 0.25, "sigma": rng.choice((0, 2)),
         "log": rng.random() < 0.5, "zoom": rng.choice((1.0, 1.0, 0.5)),
         "rratio": rng.choice((1.0, 0.0, None)),
         "angles": rng.choice((None, "half")),
         "chunk": rng.choice((1, 3, 30)), "ramp": rng.choice((
             "after", "before")), "alpha": rng.choice((0.0, 30.0)),
         "masking": rng.random() < 0.5, "retmetric": rng.random() < 0.7,
         "gpu": rng.random() < 0.2, "n": rng.choice((2, 3, 4)),
         "simk": rng.random() < 0.1, "sched": gen_sched(rng)}
    if kind not in ("vertical",) and c["metric"] == "autocorrelation":
        c["metric"] = "sharpness"
    if kind in ("slice_list", "slice", "vertical"):
        c["w"] = w = rng.choice((10, 12, 13))
        c["rows"] = rng.choice((5, 7))
        c["start"] = rng.choice((w // 2 - 1.7, w // 2 - 1))
        c["ncand"] = rng.choice((1, 2, 3))
        if rng.random() < 0.06:
            c["ncand"] = rng.randrange(4, 24)
            c["w"] += 8
            c["step"] = 0.25
            c["simk"] = False
    elif rng.random() < 0.06:
        c["n"] = rng.randrange(5, 14)
        c["ncand"] = rng.randrange(5, 30)
        c["w"] += rng.choice((0, 40, 67))
        c["start"] += c["w"] // 2 - w // 2
    return c


def image(c, k=0, rows=None, w=None):
    r = np.random.RandomState((c["aseed"] + 7919 * k) % (1 << 31))
    x = 0.2 + 0.7 * r.rand(rows or c["rows"], w or c["w"])
    if c["dtype"] == "uint16":
        x = np.ceil(x * 1000)
    return x.astype(c["dtype"])


def volume(c):
    return np.stack([image(c, k, rows=5) for k in range(c["rows"])])


def slice_args(c):
    k = {"metric": c["metric"] if c["metric"] != "custom" else "entropy",
         "method": c["method"], "gpu": c["gpu"], "ratio": c["rratio"],
         "apply_log": c["log"], "sigma": c["sigma"],
         "invert_metric": c["invert"], "ncore": c["ncore"],
         "angles": None if c["angles"] is None else np.linspace(
             0, np.pi, c["rows"])}
    if c["metric"] == "custom":
        k.update(metric_function=methods.weighted_metric, a=2.0, power=1)
    return k


def call(c, cand=None):
    """The search of a case; with `cand`, over this candidate alone."""
    import algotom.prep.calculation as calc
    import algotom.rec.reconstruction as rec
    import algotom.rec.vertrec as vr
    kind, nc = c["kind"], c["ncore"]
    ov = {"denoise": c["denoise"], "norm": c["norm"],
          "use_overlap": c["use_overlap"], "ncore": nc}
    drop = {"hor_drop": c["drop"], "ver_drop": c["drop"]}
    stop = c["start"] + (c["ncand"] - 1) * c["step"]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if kind == "coarse":
            return calc.coarse_search_cor(
                image(c), c["start"], c["start"] + c["ncand"], c["ratio"],
                denoise=c["denoise"], ncore=nc, **drop)
        if kind == "fine":
            return calc.fine_search_cor(
                image(c), c["start"], max(1, c["radius"]), c["step"],
                c["ratio"], denoise=c["denoise"], ncore=nc, **drop)
        if kind == "vo":
            return calc.find_center_vo(
                image(c), c["start"], c["start"] + c["ncand"], c["step"],
                c["radius"], c["ratio"], dsp=c["dsp"], ncore=nc, **drop)
        if kind == "search":
            return calc.search_overlap(image(c), image(c, 1), c["win"],
                                       c["side"] or 0, **ov)
        if kind == "overlap":
            return calc.find_overlap(image(c), image(c, 1), c["win"],
                                     side=c["side"], **ov)
        if kind == "multi":
            return calc.find_overlap_multiple(
                [image(c, k) for k in range(c["n"])], c["win"],
                side=c["side"], **ov)
        if kind == "c360":
            return calc.find_center_360(image(c), c["win"], side=c["side"],
                                        **ov)
        if kind == "proj":
            return calc.find_center_projection(
                image(c), image(c, 1), flip=c["dsp"], win_width=c["win"],
                chunk_height=c["rows"] // 2, **ov)
        if kind == "slice_list":
            a, b = c["start"], stop + c["step"] / 2
            if cand is not None:
                a, b = cand, cand + c["step"] / 2
            return rec._find_center_based_slice_metric(
                image(c), a, b, c["step"], prefer=c["prefer"],
                return_metric=c["retmetric"], **slice_args(c))
        if kind == "slice":
            return rec.find_center_based_slice_metric(
                image(c), c["start"], stop, c["step"], zoom=c["zoom"],
                radius=c["radius"], **slice_args(c))
        a, b = c["start"], stop - c["step"] / 2
        if cand is not None:
            a, b = cand, cand - c["step"] / 2
        k = slice_args(c)
        for n in ("method", "ratio"):
            del k[n]
        if c["metric"] != "custom":
            k["metric"] = c["metric"]
        return vr.find_center_vertical_slice(
            volume(c), 4, a, b, c["step"], alpha=c["alpha"],
            chunk_size=c["chunk"], ramp_filter=c["ramp"],
            prefer=c["prefer"], show_progress=c["dsp"],
            masking=c["masking"] and cand is None,
            return_metric=c["retmetric"], **k)


def one_worker(c):
    return call(dict(c, ncore=1, gpu=False))


def candidates(c, centers):
    """The metric of every candidate on its own."""
    c = dict(c, ncore=1, gpu=False, invert=False, retmetric=True)
    return [float(call(c, float(x))[1][0]) for x in centers]


def overlap_oracle(c):
    """The metric list of search_overlap, position by position."""
    a, b = np.float64(image(c)), np.float64(image(c, 1))
    if c["denoise"]:
        a = np.float64(ndi.gaussian_filter(image(c), (2, 2)))
        b = np.float64(ndi.gaussian_filter(image(c, 1), (2, 2)))
    n1, n2 = a.shape[1], b.shape[1]
    off = int(np.clip(c["win"], 6, min(n1, n2) // 2 - 1)) // 2
    win = 2 * off
    side = c["side"] or 0
    down = np.linspace(1.0, 0.0, win)[None]
    roi2 = b[:, :win] if side == 1 else b[:, n2 - win:]
    w2 = roi2 * ((1 - down) if side == 1 else down)
    out = []

    def metric(x, y):
        x, y = x.ravel() - x.mean(), y.ravel() - y.mean()
        return abs(1.0 - (x @ y) / np.sqrt((x @ x) * (y @ y)))
    for pos in range(off, n1 - off):
        roi = a[:, pos - off:pos + off]
        f = np.ones((len(a), 1))
        if c["norm"]:
            f = (np.mean(np.abs(roi2), axis=1)
                 / np.mean(np.abs(roi), axis=1))[:, None]
        w1 = roi * (down if side == 1 else 1 - down) * f
        roi = roi * f
        if c["use_overlap"]:
            comb = w1 + w2
            m = (metric(roi, roi2) + metric(roi, comb)
                 + metric(roi2, comb)) / 3.0
        else:
            m = metric(roi, roi2)
        out.append(m)
    out = np.array(out)
    return out / out.min(), off


def run(case, ctx):
    ctx.count("kind_" + case["kind"])
    if case["kind"] == "visual":
        run_clean(case, ctx)
        return
    c = case
    name = c["kind"]
    if name == "slice_list":
        import algotom.rec.reconstruction as rec
        if not hasattr(rec, "_find_center_based_slice_metric"):
            ctx.count("not_there")
            return
    st, want, text = fresh(one_worker, c)
    if st == "bad":
        raise RuntimeError("reference of %s: %s %s" % (name, want, text))

    def main(s):
        if not c["simk"]:
            return outcome(call, c)
        with kernels.simulated(s, c["sched"]["seed"], 3):
            return outcome(call, c)
    gst, got = simulate(c, ctx, main, max_steps=4000000)
    if gst != st:
        if gst == "err":
            raise Violation("fails", "%s raised %s: %s; by one worker it "
                            "works" % (name, type(got).__name__, got), name)
        raise Violation("missing-error", "%s returned; by one worker it "
                        "raises %s" % (name, want), name)
    if st == "err":
        ctx.count("call_refused")
        return
    if c["simk"] and name in ("slice_list", "slice", "vertical") and \
            c["metric"] == "entropy":
        # a histogram of images that are equal up to rounding only
        return
    if not (c["simk"] and not c["retmetric"]):
        close(got, want, name, "wrong-result", name)
    if name == "search":
        m, off = overlap_oracle(c)
        close(got[0], m, "metric list of search_overlap", "wrong-metric",
              name, 1e-3)
        if int(got[1]) != off:
            raise Violation("wrong-metric", "offset %s, expected %d" % (
                got[1], off), name)
    if name in ("slice_list", "vertical") and c["retmetric"] and \
            c["metric"] != "entropy" and not (
                name == "vertical" and c["masking"]):
        centers, metric = got
        st, own, text = fresh(candidates, c, list(np.asarray(centers)))
        if st != "ok":
            raise RuntimeError("candidates of %s: %s %s" % (name, own, text))
        own = np.array(own)
        if c["invert"]:
            own = own.max() - own
        close(np.asarray(metric), own, "metrics of %s, candidate by candidate"
              % name, "wrong-metric", name, 1e-4)
        ctx.count("candidates_checked", len(own))


def warm(base):
    import random
    rng = random.Random(5)
    seen = set()
    for _ in range(3000):
        c = gen(rng, 0, "quick")
        if c["kind"] == "visual":
            continue
        if c["kind"] in ("slice_list", "slice"):
            key = (c["kind"], c["method"], c["dtype"], c["log"], c["sigma"])
        elif c["kind"] == "vertical":
            key = (c["kind"], c["dtype"], c["log"], c["ramp"], c["sigma"],
                   c["prefer"])
        else:
            key = (c["kind"],)
        if key in seen or len(seen) > 120:
            continue
        seen.add(key)
        try:
            one_worker(c)
        except Exception:
            pass
    ioops.warm(base)


def shrink(c):
    if c["kind"] == "visual":
        yield from shrink_io(c)
        return
    c = {k: v for k, v in c.items() if k != "_info"}
    for k, v in (("dtype", "float32"), ("denoise", False), ("norm", False),
                 ("use_overlap", False), ("side", 0), ("win", 6),
                 ("ncore", 1), ("ncore", 2), ("prefer", "threads"),
                 ("ncand", 1), ("ncand", 2), ("step", 1), ("ratio", 0.5),
                 ("drop", None), ("dsp", False), ("radius", 0),
                 ("method", "dfi"), ("invert", False), ("sigma", 0),
                 ("log", False), ("zoom", 1.0), ("rratio", None),
                 ("angles", None), ("chunk", 30), ("ramp", "after"),
                 ("alpha", 0.0), ("masking", False), ("gpu", False),
                 ("n", 2), ("simk", False)):
        if c[k] == v:
            continue
        d = copy.deepcopy(c)
        d[k] = v
        yield d
    yield from shrink_sched(c)
