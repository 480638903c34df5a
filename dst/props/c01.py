"""C01: mapping a method over slices in parallel equals the sequential map."""
import numpy as np

from dst.common import (gen_sched, simulate, data, ahash, Violation,
                        outcome, diff_text)

LEVEL = "exploration"
CASES = {"quick": 250, "thorough": 20000}
SECONDS = {"quick": 22, "thorough": 500}
RULE = ("One case = (array or HDF5 source, axis, dtype, memory layout, method "
        "and parameters, worker count, worker kind, schedule). Non-trivial: "
        "at least two tasks were runnable at one scheduling decision.")
REAL = ["algotom.util.utility.parallel_process_slices and "
        "apply_regularization_filter", "algotom filters used as methods",
        "h5py/HDF5 as data source", "argument pickling (cloudpickle)"]
STUB = ["joblib.Parallel worker pool (simulated)", "CPU count", "clock"]
ASSUMPTIONS = ["CPython with the GIL: pre-emption happens between bytecodes; "
               "numpy calls are atomic with respect to other tasks",
               "the simulated pool returns results in submission order and "
               "raises the first failure, as joblib documents"]

METHS = ("affine", "stats_mark", "crop_mark", "transpose_mark", "cumulative",
         "lib_sorting", "lib_gauss", "lib_filter", "lambda")


def gen(rng, i, tier):
    kind = "regul" if rng.random() < 0.18 else "map"
    if kind == "regul":
        shape = [rng.randrange(1, 9), rng.randrange(3, 12)]
        if rng.random() < 0.5:
            shape = shape[::-1]
        shape = [max(s, 3) for s in shape]
        if rng.random() < 0.06:
            shape[rng.randrange(2)] = rng.randrange(30, 140)
        return {"kind": kind, "shape": shape, "seed": rng.randrange(1 << 30),
                "axis": rng.choice((0, 1)),
                "alpha": rng.choice((0.001, 0.01, 0.1, 1.0)),
                "dtype": rng.choice(("float32", "float64")),
                "ncore": rng.choice((None, 1, 2, 3, 5, 8, 20)),
                "sched": gen_sched(rng)}
    shape = [rng.randrange(2, 8) for _ in range(3)]
    if rng.random() < 0.15:
        shape[rng.randrange(3)] = 1
    axis = rng.choice((0, 1, 2))
    if rng.random() < 0.2:
        shape[axis if rng.random() < 0.6 else rng.randrange(3)] = \
            rng.randrange(10, 18) if rng.random() < 0.4 else \
            rng.randrange(30, 280)
    meth = rng.choice(METHS)
    if meth in ("crop_mark", "transpose_mark", "lib_sorting", "lib_gauss",
                "lib_filter"):
        shape = [max(s, 3) for s in shape]
    if meth == "transpose_mark":
        k = rng.randrange(2, 7)
    ncalls = rng.choice((1, 1, 1, 2, 3))
    return {"kind": kind, "shape": shape, "seed": rng.randrange(1 << 30),
            "axis": axis,
            "dtype": rng.choice(("float32", "float64", "uint16", "uint8")),
            "layout": rng.choice(("C", "C", "F", "view", "neg", "hdf")),
            "method": meth, "par": rng.choice(("list", "list", "scalar",
                                               "none")),
            "kw": rng.random() < 0.5, "calls": ncalls,
            "a": rng.choice((0.5, 1.0, 2.0, 3.5)),
            "b": rng.choice((-1.0, 0.0, 4.0)),
            "ncore": rng.choice((None, 0, 1, 2, 2, 3, 4, 7, 8, 16, 40)),
            "prefer": rng.choice(("threads", "threads", "processes", None)),
            "sched": gen_sched(rng)}


def build(case, ctx, k):
    from dst.methods import METHODS
    import algotom.prep.removal as remo
    import algotom.util.utility as util
    arr = data(case["shape"], case["seed"] + 7919 * k, case["dtype"])
    lay = case["layout"]
    if lay == "F":
        arr = np.asfortranarray(arr)
    elif lay == "view":
        big = np.zeros([2 * s for s in arr.shape], dtype=arr.dtype)
        big[::2, ::2, ::2] = arr
        arr = big[::2, ::2, ::2]
    elif lay == "neg":
        arr = arr[::-1, :, ::-1]
    src = arr
    if lay == "hdf":
        import h5py
        p = ctx.path("in%d.hdf" % k)
        with h5py.File(p, "w") as f:
            f.create_dataset("entry/data", data=arr)
        import algotom.io.loadersaver as losa
        src = losa.load_hdf(p, "entry/data")
    m = case["method"]
    a, b = case["a"], case["b"]
    kw = {}
    if m in METHODS:
        fn = METHODS[m]
        if m == "affine":
            pars = [a, b]
            if case["kw"]:
                pars, kw = [a], {"b": b}
        elif m == "stats_mark":
            pars, kw = [a], ({"scale": b} if case["kw"] else {})
        elif m == "crop_mark":
            pars, kw = [1], ({"b": 2} if case["kw"] else {})
        elif m == "transpose_mark":
            pars = [a]
        else:
            pars, kw = [a], ({"along": 1} if case["kw"] else {})
    elif m == "lib_sorting":
        fn, pars = remo.remove_stripe_based_sorting, [3]
        kw = {"dim": 1} if case["kw"] else {}
    elif m == "lib_gauss":
        fn, pars = util.apply_gaussian_filter, [2, 3]
        kw = {"pad": 2}
    elif m == "lib_filter":
        fn, pars = remo.remove_stripe_based_filtering, [2]
        kw = {"size": 3} if case["kw"] else {}
    else:
        off = a
        fn, pars = (lambda mat, c: mat * c + off), [b]
    if case["par"] == "scalar":
        if m in ("lib_gauss",):
            param = pars
        else:
            param = pars[0]
            pars = pars[:1]
    elif case["par"] == "none" and m in METHODS:
        pars, param = [], []
    else:
        param = list(pars)
    return src, arr, fn, pars, param, kw


def run(case, ctx):
    import algotom.util.utility as util
    if case["kind"] == "regul":
        mat = data(case["shape"], case["seed"], case["dtype"])
        keep = mat.copy()
        want = ref_regul(mat, case["alpha"], case["axis"])
        got = simulate(case, ctx, lambda s: util.apply_regularization_filter(
            mat, case["alpha"], axis=case["axis"], ncore=case["ncore"]))
        got = np.asarray(got)
        if got.shape != want.shape or not np.allclose(
                got, want, rtol=1e-4, atol=1e-4 * np.max(np.abs(want))):
            raise Violation("wrong-result", diff_text(
                got, want, "regularization filter"))
        if not np.array_equal(mat, keep):
            raise Violation("input-modified", "input array changed")
        ctx.info["out"] = ahash(got)
        return

    built = [build(case, ctx, k) for k in range(case["calls"])]
    wants = []
    for src, arr, fn, pars, param, kw in built:
        ax = case["axis"]
        sl = [np.take(arr, i, axis=ax) for i in range(arr.shape[ax])]
        wants.append(np.stack([np.float32(fn(x.copy(), *pars, **kw))
                               for x in sl], axis=ax))
    keeps = [b[1].copy() for b in built]
    outs = []

    def main(s):
        for src, arr, fn, pars, param, kw in built:
            args = {"axis": case["axis"], "ncore": case["ncore"]}
            if case["prefer"] is not None:
                args["prefer"] = case["prefer"]
            outs.append(util.parallel_process_slices(
                src, fn, param, **args, **kw))
    simulate(case, ctx, main)
    for k, (got, want) in enumerate(zip(outs, wants)):
        g = np.asarray(got)
        # library filters may sum in memory order, which a copy changes
        lib = case["method"].startswith("lib_")
        if g.shape != want.shape or not (
                np.allclose(g, want, rtol=1e-5, atol=1e-5 * np.max(
                    np.abs(want)), equal_nan=True) if lib else
                np.array_equal(g, want, equal_nan=True)):
            raise Violation("wrong-result", diff_text(
                g, want, "call %d, axis %d, method %s" % (
                    k, case["axis"], case["method"])))
        if g.dtype != np.float32:
            raise Violation("wrong-type", "result dtype %s, expected float32"
                            % g.dtype)
        if not np.array_equal(built[k][1], keeps[k]):
            raise Violation("input-modified", "input array changed")
        ctx.info["out%d" % k] = ahash(g)


def ref_regul(mat, alpha, axis):
    """Row-by-row reference, plain numpy, written from the published formula
    as the library documents it (one regularised row at a time)."""
    m = np.asarray(mat, dtype=np.float64)
    if axis == 0:
        m = m.T
    import algotom.util.utility as util
    sij = util.calculate_regularization_coefficient(m.shape[1], alpha)
    out = np.zeros_like(m)
    for r in range(m.shape[0]):
        row = m[r]
        grad = np.zeros(len(row))
        for c in range(len(row)):
            if c == 0:
                grad[c] = row[0] - row[1]
            elif c == len(row) - 1:
                grad[c] = row[-1] - row[-2]
            else:
                grad[c] = -(row[c + 1] - 2 * row[c] + row[c - 1])
        grad = np.float32(grad).astype(np.float64)
        out[r] = row + sij @ grad
    return out.T if axis == 0 else out


def shrink(c):
    if c["kind"] == "map":
        if c["calls"] > 1:
            d = dict(c); d["calls"] = c["calls"] - 1; yield d
        for ax in range(3):
            if c["shape"][ax] > 3:
                d = dict(c); d["shape"] = list(c["shape"])
                d["shape"][ax] -= 1; yield d
        for k, v in (("layout", "C"), ("dtype", "float32"), ("kw", False),
                     ("prefer", "threads"), ("method", "affine")):
            if c[k] != v:
                d = dict(c); d[k] = v; yield d
    if c["ncore"] is None or c["ncore"] > 2:
        d = dict(c); d["ncore"] = 2; yield d
    for k, v in (("opcodes", False), ("policy", "fifo"), ("clock", "steady"),
                 ("listing", "sorted"), ("ncpu", 3)):
        if c["sched"].get(k) != v:
            d = dict(c); d["sched"] = dict(c["sched"]); d["sched"][k] = v
            yield d
