"""C07: speckle shift and signal retrieval do not depend on workers, chunks or
the storage of the images."""
import copy
import os
import shutil
import tempfile
import warnings

import numpy as np

from dst.common import expect_close, gen_sched, outcome, simulate
from dst.engine import Violation
from dst.fresh import fresh
from dst.funcs import close
from dst.ioprops import shrink_sched

LEVEL = "exploration"
CASES = {"quick": 400, "thorough": 20000}
SECONDS = {"quick": 25, "thorough": 550}
RULE = ("One case = (function, images, search window, margin, method, chunk "
        "size, storage as array or HDF5 dataset, worker count, schedule, "
        "host). Expected: one worker, one chunk, arrays; and pixel by pixel "
        "the shift (or signal) of the window around that pixel alone. "
        "Non-trivial: two or more tasks were ready at once.")
REAL = ["algotom.util.correlation: local, cost-function-based and global "
        "shift searches", "algotom.prep.phase: shifts of image stacks, "
        "transmission and dark signals, speckle tracking",
        "h5py datasets on a real file system"]
STUB = ["joblib.Parallel worker pool (simulated)", "CPU count", "clock"]
ASSUMPTIONS = ["the margin covers the shifts handed to the signal retrieval",
               "chunk sizes only split the work where the images are not "
               "normalised chunk by chunk (norm off, or along rows)"]
KINDS = ("local1", "local1", "local2", "local2", "local2d", "umpa", "umpa",
         "global", "global", "stacks", "samples", "signal", "signal",
         "signal", "retrieve")


def gen(rng, i, tier):
    kind = rng.choice(KINDS)
    win = rng.choice((2, 3, 3, 4, 5))
    margin = rng.choice((1, 2, 2, 3))
    edge = margin + win // 2
    c = {"kind": kind, "aseed": rng.randrange(1 << 30), "win": win,
         "margin": margin, "depth": rng.choice((1, 2, 3)),
         "h": 2 * edge + rng.choice((1, 2, 3, 4, 5, 7)),
         "w": 2 * edge + rng.choice((1, 2, 3, 5)),
         "dtype": rng.choice(("float32", "float32", "float64", "uint16")),
         "method": rng.choice(("diff", "diff", "poly_fit")),
         "size": rng.choice((3, 5)), "norm": rng.random() < 0.3,
         "norm_global": rng.random() < 0.3,
         "hdf": rng.choice((None, None, "contiguous", "chunked")),
         "chunk": rng.choice((1, 1, 2, 3, 4, 5, 7, 100, None)),
         "dark": rng.random() < 0.5, "filt": rng.choice((
             "hamming", None, "hann")),
         "gpu": rng.random() < 0.2,
         "ncore": rng.choice((None, 1, 2, 2, 3, 4, 5, 6, 8, 40)),
         "npoint": rng.choice((1, 2, 3, 8, 11)),
         "value": rng.choice(("median", "mean", "mixed")),
         "retlist": rng.random() < 0.5, "sub": rng.random() < 0.8,
         "umpa": rng.random() < 0.4, "dim": rng.choice((1, 2)),
         "surf": rng.choice(("SCS", "FC")), "retshift": rng.random() < 0.5,
         "flat2d": rng.random() < 0.3, "auto": rng.random() < 0.5,
         "sched": gen_sched(rng)}
    if kind == "signal":
        # parallel from 20 rows per worker on
        n = c["ncore"] or max(1, c["sched"]["ncpu"] - 1)
        c["h"] = 2 * edge + 6 + rng.choice((5, 20 * min(n, 6), 20 * min(
            n, 6) + 7))
        c["w"] = 2 * edge + rng.choice((2, 4))
        if c["auto"]:
            c["w"] += 4
    if kind in ("global", "stacks", "samples"):
        c["h"] = 2 * edge + rng.choice((3, 5, 8))
        c["w"] = 2 * edge + rng.choice((3, 6))
        if kind == "samples":
            c["h"] += 6
            c["w"] += 6
    if kind == "retrieve":
        c["win"], c["margin"] = 3, rng.choice((2, 3))
        e = c["margin"] + 2
        c["h"], c["w"] = 2 * e + rng.choice((3, 5)), 2 * e + 3
    if kind in ("umpa", "retrieve") or c["depth"] == 1:
        c["depth"] = max(2, c["depth"])
    if kind in ("global", "stacks", "samples") and rng.random() < 0.2:
        c["npoint"] = rng.randrange(20, 140)
    elif rng.random() < 0.05:
        what = rng.choice(("rows", "columns", "images"))
        if what == "images":
            c["depth"] = rng.randrange(4, 14)
        elif kind in ("local1", "local2", "local2d", "umpa"):
            more = rng.randrange(30, 130)
            e = 2 * (margin + c["win"] // 2)
            if what == "rows":
                c["h"], c["w"] = c["h"] + more, e + 2
            else:
                c["w"], c["h"] = c["w"] + more, e + 3
            c["chunk"] = rng.choice((1, 7, 30, 100, None))
    return c


def images(c, two=False):
    r = np.random.RandomState(c["aseed"] % (1 << 31))
    sh = (c["depth"], c["h"], c["w"])
    a = 0.2 + r.rand(*sh)
    b = np.roll(a, (r.randint(-1, 2), r.randint(-1, 2)), (1, 2))
    b = 0.7 * b + 0.3 * r.rand(*sh) + 0.05
    if c["dtype"] == "uint16":
        a, b = np.ceil(a * 9000), np.ceil(b * 9000)
    a, b = a.astype(c["dtype"]), b.astype(c["dtype"])
    if two:
        return a[0], b[0]
    return a, b


def points(c):
    r = np.random.RandomState((c["aseed"] + 5) % (1 << 31))
    gap = c["margin"] + c["win"] // 2
    h, w = c["h"], c["w"]
    if c["kind"] == "samples":
        h, w = h - 6, w - 6
    i = r.randint(gap + 1, h - gap, c["npoint"])
    j = r.randint(gap + 1, w - gap, c["npoint"])
    if c["npoint"] == 1 and c["retlist"]:
        return [int(i[0]), int(j[0])]
    return [[int(x) for x in i], [int(x) for x in j]]


def shift_maps(c):
    r = np.random.RandomState((c["aseed"] + 9) % (1 << 31))
    m = c["margin"]
    f = r.uniform(-m, m, (2, c["h"], c["w"]))
    if c["dark"]:
        f = np.round(f)
    return np.float32(f)


def call(c, pair=None):
    import algotom.prep.phase as ph
    import algotom.util.correlation as corl
    kind, nc = c["kind"], c["ncore"]
    a, b = pair if pair is not None else images(c, kind in (
        "local2d", "global"))
    com = {"win_size": c["win"], "margin": c["margin"],
           "method": c["method"], "size": c["size"], "ncore": nc}
    if c.get("block"):          # of a simulated GPU (C20)
        com["block"] = c["block"]
    glob = {"global_value": c["value"], "sub_pixel": c["sub"],
            "method": c["method"], "size": c["size"], "ncore": nc,
            "norm": c["norm"], "gpu": c["gpu"]}
    if c.get("block"):
        glob["block"] = c["block"]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if kind in ("local1", "local2", "local2d"):
            return corl.find_local_shifts(
                a, b, dim=1 if kind == "local1" else 2, gpu=c["gpu"],
                norm=c["norm"], norm_global=c["norm_global"],
                chunk_size=c["chunk"], **com)
        if kind == "umpa":
            return corl.find_local_shifts_umpa(
                a, b, gpu=c["gpu"], chunk_size=c["chunk"],
                filter_name=c["filt"], dark_signal=c["dark"], **com)
        if kind == "global":
            return corl.find_global_shift_based_local_shifts(
                a, b, c["win"], c["margin"], list_ij=points(c),
                return_list=c["retlist"], **glob)
        if kind == "stacks":
            return ph.find_shift_between_image_stacks(
                a, b, c["win"], c["margin"], points(c), **glob)
        if kind == "samples":
            sr = np.linspace(-1.5, 1.5, 2 * c["depth"]).reshape(-1, 2)
            return ph.find_shift_between_sample_images(
                np.float64(a), np.float64(b), sr, c["win"], c["margin"],
                points(c), **glob)
        if kind == "signal":
            x, y = shift_maps(c)
            if c["flat2d"]:
                a, b = a[0], b[0]
            return ph.get_transmission_dark_field_signal(
                a, b, x, y, c["win"],
                margin=None if c["auto"] else c["margin"], ncore=nc)
        return ph.retrieve_phase_based_speckle_tracking(
            a, b, find_shift="umpa" if c["umpa"] else "correl",
            dark_signal=c["dark"], dim=c["dim"], gpu=c["gpu"],
            norm=c["norm"], norm_global=c["norm_global"],
            chunk_size=c["chunk"], surf_method=c["surf"], pad=2,
            return_shift=c["retshift"], **com)


def splits(c):
    """The chunk size only splits the work."""
    if c["kind"] in ("local1", "local2") or (c["kind"] == "retrieve" and
                                             not c["umpa"]):
        return not c["norm"]
    return True


def reference(c):
    d = dict(c, ncore=1, gpu=False)
    if splits(c):
        d["chunk"] = None
    return call(d)


def local_oracle(c):
    """Shifts of the window around every pixel, on its own."""
    import algotom.util.correlation as corl
    f = corl.find_shift_based_correlation_map
    a, b = images(c, c["kind"] == "local2d")
    m, r = c["margin"], c["win"] // 2
    e = m + r
    if c["norm_global"] and a.ndim == 3:
        a, b = corl.normalize_image(a), corl.normalize_image(b)
    if c["norm"] and a.ndim == 2:
        a, b = corl.normalize_image(a), corl.normalize_image(b)
    h, w = c["h"], c["w"]
    x, y = np.zeros((h, w)), np.zeros((h, w))
    opt = {"sub_pixel": True, "method": c["method"], "size": c["size"]}
    if c["kind"] == "local1":
        for i in range(h):
            ra, rb = a[:, i], b[:, i]
            for j in range(e, w - e):
                x[i, j] = f(ra[:, j - e:j + e + 1], rb[:, j - r:j + r + 1],
                            m, axis=1, dim=1, **opt)[0]
        for j in range(w):
            ca, cb = a[:, :, j], b[:, :, j]
            for i in range(e, h - e):
                y[i, j] = f(ca[:, i - e:i + e + 1], cb[:, i - r:i + r + 1],
                            m, axis=1, dim=1, **opt)[0]
        return x, y
    for i in range(e, h - e):
        for j in range(e, w - e):
            x[i, j], y[i, j] = f(
                a[..., i - e:i + e + 1, j - e:j + e + 1],
                b[..., i - r:i + r + 1, j - r:j + r + 1], m, axis=None,
                dim=2, **opt)
    return x, y


def signal_oracle(c):
    a, b = images(c)
    a, b = np.float64(a), np.float64(b)
    x, y = shift_maps(c)
    if c["flat2d"]:
        a, b = a[:1], b[:1]
    r = c["win"] // 2
    m = c["margin"]
    if c["auto"]:
        m = int(np.ceil(max(np.abs(x).max(), np.abs(y).max())))
    p = r + m
    h, w = c["h"], c["w"]
    t, d = np.ones((h, w)), np.ones((h, w))
    for i in range(p, h - p):
        for j in range(p, w - p):
            i1 = i + int(np.round(y[i, j]))
            j1 = j + int(np.round(x[i, j]))
            u = a[:, i - r:i + r + 1, j - r:j + r + 1].reshape(len(a), -1)
            v = b[:, i1 - r:i1 + r + 1, j1 - r:j1 + r + 1].reshape(len(b), -1)
            tr = v.mean(1) / u.mean(1)
            t[i, j] = tr.mean()
            d[i, j] = (v.std(1) / u.std(1) / tr).mean()
    s = slice(p, -p)
    return [np.pad(q[s, s], p, mode="edge") for q in (t, d)]


def global_oracle(c):
    """Shift between two images from the windows at the given points."""
    import scipy.ndimage as ndi
    import algotom.util.correlation as corl
    f = corl.find_shift_based_correlation_map
    a, b = images(c, c["kind"] == "global")
    if c["kind"] == "samples":
        sr = np.linspace(-1.5, 1.5, 2 * c["depth"]).reshape(-1, 2)
        crop = slice(2, -2)
        mats = [(ndi.shift(np.float64(b[k]), sr[k][::-1]) / (
            np.float64(a[k]) + 1e-9))[crop, crop] for k in range(len(a))]
        pairs = [(mats[0], m) for m in mats[1:]]
    elif c["kind"] == "stacks":
        pairs = list(zip(a, b))
    else:
        pairs = [(a, b)]
    m, r = c["margin"], c["win"] // 2
    e = m + r
    li, lj = [np.atleast_1d(q) for q in points(c)]
    out = []
    for a, b in pairs:
        if c["norm"]:
            a, b = corl.normalize_image(a), corl.normalize_image(b)
        s = np.asarray([f(a[i - e:i + e + 1, j - e:j + e + 1],
                          b[i - r:i + r + 1, j - r:j + r + 1], m, axis=None,
                          dim=2, sub_pixel=c["sub"], method=c["method"],
                          size=c["size"]) for i, j in zip(li, lj)])
        n = len(s)
        if c["kind"] == "global" and c["retlist"]:
            return s[:, 0], s[:, 1]
        s = np.sort(s, axis=0)
        if c["value"] == "mixed" and n > 1:
            s = s[max(0, n // 2 - 3):min(n, n // 2 + 3)].mean(axis=0)
        elif c["value"] == "mean":
            s = (s[2:-2] if n > 7 else s).mean(axis=0)
        else:
            s = np.median(s, axis=0)
        out.append(s)
    if c["kind"] == "global":
        return out[0][0], out[0][1]
    if c["kind"] == "samples":
        out.insert(0, np.zeros(2))
    return np.asarray(out)


def umpa_oracle(c):
    """Shift of the least cost of every pixel to the next integer."""
    import algotom.rec.reconstruction as rec
    a, b = [np.float64(q) for q in images(c)]
    m, r = c["margin"], c["win"] // 2
    e, n = m + r, 2 * r + 1
    w1 = rec.make_smoothing_window(c["filt"], n)
    win = np.multiply.outer(w1, w1)
    win = win / win.sum()
    h, w = c["h"], c["w"]
    best = np.zeros((h, w, 2))
    sure = np.zeros((h, w), bool)
    for i in range(e, h - e):
        for j in range(e, w - e):
            s = b[:, i - r:i + r + 1, j - r:j + r + 1]
            cost = np.zeros((2 * m + 1, 2 * m + 1))
            for p in range(2 * m + 1):
                for q in range(2 * m + 1):
                    g = a[:, i - e + p:i - e + p + n, j - e + q:j - e + q + n]
                    t1, t3 = (win * s * s).sum(), (win * g * g).sum()
                    t5 = (win * s * g).sum()
                    cost[p, q] = t1 - t5 * t5 / t3
            o = np.sort(cost.ravel())
            sure[i, j] = o[1] - o[0] > 1e-3 * (o[-1] - o[0])
            best[i, j] = np.unravel_index(cost.argmin(), cost.shape)
            best[i, j] -= m
    return best, sure


def run(case, ctx):
    c = case
    kind = c["kind"]
    ctx.count("kind_" + kind)
    st, want, text = fresh(reference, c)
    if st == "bad":
        raise RuntimeError("reference of %s: %s %s" % (kind, want, text))
    tmp, pair, fh = None, None, None
    try:
        if c["hdf"] and kind in ("local1", "local2", "local2d", "umpa"):
            import h5py
            tmp = tempfile.mkdtemp(prefix="c07", dir=os.environ.get(
                "TMPDIR", "/tmp"))
            fh = h5py.File(os.path.join(tmp, "speckle.h5"), "w")
            pair = images(c, kind == "local2d")
            ch = True if c["hdf"] == "chunked" else None
            pair = [fh.create_dataset(n, data=q, chunks=ch)
                    for n, q in zip("ab", pair)]
            ctx.count("hdf_" + c["hdf"])

        def main(s):
            return outcome(call, c, pair)
        gst, got = simulate(c, ctx, main, max_steps=4000000)
    finally:
        if fh is not None:
            fh.close()
        if tmp is not None:
            shutil.rmtree(tmp)
    if gst != st:
        if gst == "err":
            raise Violation("fails", "%s raised %s: %s; by one worker in one "
                            "chunk it works" % (kind, type(got).__name__,
                                                got), kind)
        raise Violation("missing-error", "%s returned; by one worker in one "
                        "chunk it raises %s" % (kind, want), kind)
    if st == "err":
        ctx.count("call_refused")
        return
    close(got, want, kind, "wrong-result", kind)
    oracle(c, ctx, got)


def oracle(c, ctx, got):
    kind = c["kind"]
    if kind == "local2d" or (kind in ("local1", "local2") and not c["norm"]):
        x, y = local_oracle(c)
        for n, g, w in (("x", got[0], x), ("y", got[1], y)):
            expect_close(g, np.float32(w), "%s-shifts of %s, window by window"
                         % (n, kind), 1e-3, 1e-3, "wrong-shift", kind)
        ctx.count("windows_checked", int(np.count_nonzero(x) or x.size))
    elif kind in ("global", "stacks", "samples"):
        want = global_oracle(c)
        expect_close(np.asarray(got), np.asarray(want), "%s shifts, from every "
                     "point on its own" % kind, 1e-3, 1e-3, "wrong-shift",
                     kind)
        ctx.count("points_checked", np.size(points(c)) // 2)
    elif kind == "signal":
        t, d = signal_oracle(c)
        expect_close(got[0], t, "transmission, window by window", 1e-4, 1e-4,
                     "wrong-signal", kind)
        expect_close(got[1], d, "dark signal, window by window", 1e-3, 1e-3,
                     "wrong-signal", kind)
        ctx.count("signals_checked", t.size)
    elif kind == "umpa" and not c["dark"] and c["method"] == "diff":
        best, sure = umpa_oracle(c)
        bad = 0
        for n, g, w in (("x", got[0], best[..., 1]),
                        ("y", got[1], best[..., 0])):
            bad = max(bad, int(np.sum(sure & ~(np.abs(g - w) < 1.001))))
        if bad > 0.1 * max(1, sure.sum()):
            raise Violation("wrong-shift", "%d of %d cost-function shifts are "
                            "not at the least cost" % (bad, sure.sum()), kind)
        ctx.count("windows_checked", int(sure.sum()))
    elif kind == "global" and c["sub"] is not None:
        pts = points(c)
        ii, jj = np.atleast_1d(pts[0]), np.atleast_1d(pts[1])
        import algotom.util.correlation as corl
        a, b = images(c, True)
        if c["norm"]:
            a, b = corl.normalize_image(a), corl.normalize_image(b)
        m, r = c["margin"], c["win"] // 2
        e = m + r
        own = np.array([corl.find_shift_based_correlation_map(
            a[i - e:i + e + 1, j - e:j + e + 1],
            b[i - r:i + r + 1, j - r:j + r + 1], m, axis=None,
            sub_pixel=c["sub"], method=c["method"], dim=2, size=c["size"])
            for i, j in zip(ii, jj)])
        if c["retlist"]:
            expect_close(np.array(got).T, own, "local shifts of the points",
                         1e-4, 1e-4, "wrong-shift", kind)
        elif c["value"] == "median":
            expect_close(np.array(got), np.median(own, 0), "median shift",
                         1e-4, 1e-4, "wrong-shift", kind)
        ctx.count("windows_checked", len(own))


def warm(base):
    import random
    rng = random.Random(7)
    seen = set()
    for _ in range(1500):
        c = gen(rng, 0, "quick")
        key = (c["kind"], c["dtype"], c["norm"] or c["norm_global"],
               c["flat2d"] if c["kind"] == "signal" else 0)
        if key in seen:
            continue
        seen.add(key)
        for nc in (1, 2):
            try:
                call(dict(c, ncore=nc, gpu=False))
            except Exception:
                pass


def shrink(c):
    c = {k: v for k, v in c.items() if k != "_info"}
    for k, v in (("dtype", "float32"), ("norm", False),
                 ("norm_global", False), ("hdf", None), ("chunk", None),
                 ("chunk", 1), ("dark", False), ("filt", None),
                 ("gpu", False), ("ncore", 1), ("ncore", 2), ("npoint", 1),
                 ("npoint", 2), ("value", "median"), ("retlist", True),
                 ("method", "diff"), ("size", 3), ("umpa", False),
                 ("flat2d", False), ("surf", "SCS"), ("retshift", False)):
        if c[k] == v:
            continue
        d = copy.deepcopy(c)
        d[k] = v
        yield d
    yield from shrink_sched(c)
