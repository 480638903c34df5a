"""C13: existing outputs are protected unless overwriting is requested."""
import os
import random

from dst import ioops
from dst.common import file_state, gen_sched, outcome, simulate
from dst.engine import Violation
from dst.ioprops import (check_foreign, drop_exception, expects_error,
                         gen_mode, judge_files, read_json, restore_info,
                         run_clean, run_faulty, setup,
                         shrink_faulty as shrink, write_json)
__all__ = ["gen", "run", "post", "shrink", "warm"]
warm = ioops.warm

LEVEL = "fault_enumeration"
CASES = {"quick": 250, "thorough": 15000}
SECONDS = {"quick": 25, "thorough": 550}
RULE = ("One case = (operation writing to a path that exists already, "
        "overwrite flag, fault mode and plan, schedule) or a directory state "
        "with a name request. Non-trivial: something existed at or next to "
        "the requested path.")
REAL = ["algotom.io.loadersaver: save_image, save_image_multiple, "
        "save_distortion_coefficient, open_hdf_stream, make_file_name, "
        "make_folder_name", "algotom.post.postprocessing: downsample, "
        "rescale, reslice", "visual searches",
        "files on a real scratch file system"]
STUB = ["joblib.Parallel worker pool (simulated)", "directory listing order",
        "CPU count", "clock", "file-system errors, full disk and process "
        "death (LD_PRELOAD seam)"]
ASSUMPTIONS = ["callers that ask for a folder name at the same time are "
               "outside the property (the name is chosen, then used)",
               "fewer than 10000 numbered names exist"]
KEEP = ("save_multi", "save_image", "distortion", "hdf_stream", "downsample",
        "rescale", "reslice", "visual")
OVER = ("save_multi", "save_image", "distortion", "hdf_stream", "downsample",
        "rescale", "reslice", "tif_to_hdf", "hdf_tree", "hdf_to_tif")
REFUSE = ("downsample", "rescale", "reslice")


def gen(rng, i, tier):
    c = {"sched": gen_sched(rng), "deep": False,
         "fseed": rng.randrange(1 << 30), "mode": "none"}
    k = rng.random()
    if k < 0.12:
        c["kind"] = "race"
        c["p"] = {"op": rng.choice(("image", "coef", "hdf")),
                  "names": [rng.choice((0, 0, 0, 1, 2)) for _ in range(
                      rng.choice((2, 2, 3, 4)))],
                  "existing": rng.choice((0, 1, 1, 2, 3)),
                  "deep": rng.random() < 0.4}
        c["sched"]["p"] = rng.choice((0.1, 0.3, 0.6, 1.0))
    elif k < 0.38:
        c["kind"] = rng.choice(("file_name", "file_name", "folder_name"))
        c["n"] = rng.randrange(0, 7)
        c["p"] = {}
    elif k < 0.75:
        c["kind"] = "keep"
        c["op"] = rng.choice(KEEP)
        op = ioops.OPS[c["op"]]
        while True:
            p = op.gen(rng)
            if p.get("out") == "array":
                continue
            break
        if c["op"] != "visual":
            p["overwrite"] = False
            if not p.get("existing"):
                p["existing"] = rng.choice((1, 2)) if not isinstance(
                    p.get("existing"), bool) else True
        c["p"] = p
        c["mode"] = gen_mode(rng, c["op"], ("none", "none", "io", "crash",
                                            "worker"))
    else:
        c["kind"] = "over"
        c["op"] = rng.choice(OVER)
        op = ioops.OPS[c["op"]]
        while True:
            p = op.gen(rng)
            if p.get("out") != "array" and not expects_error(op, p):
                break
        p["overwrite"] = True
        p["existing"] = rng.choice((1, 2)) if not isinstance(
            p.get("existing"), bool) else True
        c["p"] = p
    return c


def unchanged(before, root, what):
    after = file_state(root)
    for k, v in sorted(before.items()):
        if after.get(k) != v:
            raise Violation("existing-changed", "%s: %s was %s" % (
                what, k, "removed" if k not in after else "modified"), what)
    return after


def names(case, ctx):
    import algotom.io.loadersaver as losa
    rng = random.Random("names:%s" % case["fseed"])
    root = ctx.path("w")
    os.makedirs(root)
    if case["kind"] == "file_name":
        base = rng.choice(("res", "scan_0000", "a.b", "img_00001"))
        ext = rng.choice((".tif", ".hdf", ".txt", "", ".tar.gz"))
        cand = [base + ext] + [base + "_%04d" % k + os.path.splitext(
            base + ext)[1] for k in range(5)]
        stem, suf = os.path.splitext(base + ext)
        cand += [stem + "_%04d" % k + suf for k in range(5)]
        have = [base + ext] if rng.random() < 0.7 else []
    else:
        pre = rng.choice(("Output", "Find_center", "a_b"))
        zp = rng.choice((1, 3, 5))
        cand = [pre + "_" + str(k).zfill(z) for k in range(1, 7)
                for z in (1, 3, 5)] + [pre, pre + "_x", pre + "_note.txt"]
        have = []
    have += rng.sample(cand, min(len(cand), case["n"]))
    for h in set(have):
        if rng.random() < 0.5:
            os.makedirs(os.path.join(root, h), exist_ok=True)
        elif not os.path.exists(os.path.join(root, h)):
            open(os.path.join(root, h), "w").close()
    before = file_state(root)

    def call(s):
        if case["kind"] == "file_name":
            return str(losa.make_file_name(os.path.join(root, base + ext)))
        return os.path.join(root, losa.make_folder_name(
            root, name_prefix=pre, zero_prefix=zp))
    out = simulate(case, ctx, call, trace_main=True)
    ctx.nontrivial = bool(have)
    unchanged(before, root, case["kind"])
    if os.path.lexists(out):
        raise Violation("name-exists", "%s chose the existing name %s" % (
            case["kind"], os.path.basename(out)))
    if os.path.dirname(os.path.normpath(out)) != os.path.normpath(root):
        raise Violation("wrong-name", "name outside the folder: %s" % out)
    b = os.path.basename(out)
    if case["kind"] == "file_name":
        if not os.path.exists(os.path.join(root, base + ext)):
            if b != base + ext:
                raise Violation("wrong-name", "%s chosen although %s was "
                                "free" % (b, base + ext))
        elif not (b.startswith(stem) and b.endswith(suf)):
            raise Violation("wrong-name", "%s for %s" % (b, base + ext))
    elif not b.startswith(pre + "_") or not b[len(pre) + 1:].isdigit():
        raise Violation("wrong-name", "%s for prefix %s" % (b, pre))


def race(case, ctx):
    """Callers that save under the same name at the same time: each of them
    gets a file of its own."""
    import h5py
    import numpy as np
    import algotom.io.loadersaver as losa
    p = case["p"]
    ext = {"image": ".tif", "coef": ".txt", "hdf": ".hdf"}[p["op"]]
    root = ctx.path("w")
    os.makedirs(root)
    fold = os.path.join(root, "a/b") if p["deep"] else root
    stems = ["res", "res_0000", "res_0000_0000"]
    if p["existing"]:
        os.makedirs(fold, exist_ok=True)
    for n in stems[:p["existing"]]:
        with open(os.path.join(fold, n + ext), "w") as f:
            f.write("user\n")
    before = file_state(root)
    got = [None] * len(p["names"])

    def caller(s, t):
        import sys
        s.trace_here()
        path = os.path.join(fold, stems[p["names"][t]] + ext)
        try:
            if p["op"] == "image":
                got[t] = losa.save_image(
                    path, np.full((3, 4), t + 1.0, np.float32),
                    overwrite=False)
            elif p["op"] == "coef":
                got[t] = losa.save_distortion_coefficient(
                    path, t + 1.0, 2.0, [1.0, 2.0], overwrite=False)
            else:
                d = losa.open_hdf_stream(path, (3, 4), overwrite=False)
                d[...] = t + 1.0
                got[t] = d.file.filename
                d.file.close()
        finally:
            sys.settrace(None)

    def main(s):
        ts = [s.spawn("caller%d" % t, lambda t=t: caller(s, t))
              for t in range(len(p["names"]))]
        s.join(ts)
        for t in ts:
            if t.error is not None:
                raise t.error
    simulate(case, ctx, main)
    ctx.nontrivial = True
    unchanged(before, root, p["op"])
    names = [os.path.realpath(str(g)) for g in got]
    if len(set(names)) != len(names):
        raise Violation("same-name", "callers share a file: %s" % [
            os.path.basename(n) for n in names], p["op"])
    for t, n in enumerate(names):
        if p["op"] == "image":
            v = ioops.read_tif(n)
        elif p["op"] == "coef":
            v = losa.load_distortion_coefficient(n)[0]
        else:
            with h5py.File(n, "r") as f:
                v = f["entry/data"][:]
        if not np.all(np.asarray(v) == t + 1.0):
            raise Violation("wrong-result", "%s holds the data of another "
                            "caller" % os.path.basename(n), p["op"])
    extra = set(file_state(root)) - set(before) - {
        os.path.relpath(n, root) for n in names} - {"a/", "a/b/", "a", "a/b"}
    if extra:
        raise Violation("litter", "extra files %s" % sorted(extra), p["op"])


def run(case, ctx):
    if case["kind"] == "race":
        race(case, ctx)
        return
    if case["kind"] in ("file_name", "folder_name"):
        names(case, ctx)
        return
    ctx.nontrivial = True
    if case["kind"] == "over":
        run_clean(case, ctx)
        return
    op, p = ioops.OPS[case["op"]], case["p"]
    root = setup(ctx, op, p)
    before = file_state(root)
    write_json(ctx.path("before.json"), before)
    st, res = run_faulty(case, ctx, root, case["mode"])
    ctx.count("op_%s_%s" % (op.name, st))
    after = unchanged(before, root, op.name)
    faulty = ctx.fired or ctx.sims[-1].fired
    if op.name in REFUSE:
        if st == "ok":
            raise Violation("missing-error", "%s returned although its "
                            "output existed and overwriting is off" % op.name)
        if after != before:
            raise Violation("refused-but-wrote", "%s: %s" % (
                op.name, [x[0] for x in ioops.changes(before, after)][:4]))
        return
    if st == "ok" and not expects_error(op, p):
        op.result(root, p, res)
        op.release(res)
        judge_files(op, root, p, before)
        check_foreign(op, p, before, root)
    elif st == "err" and not faulty and not expects_error(op, p):
        raise res
    drop_exception(res)
    unchanged(before, root, op.name)


def post(case, ctx):
    restore_info(ctx)
    if case["kind"] != "keep":
        return
    before = read_json(ctx.path("before.json"))
    if before is not None:
        unchanged(before, os.path.join(ctx.dir, "w"), case["op"])
