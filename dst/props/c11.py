"""C11: input data and unrelated files are never modified or lost."""
from dst import ioops
from dst.common import file_state
from dst.engine import Violation
from dst.ioprops import (check_foreign, drop_exception, gen_clean, gen_mode, plant_decoys,
                         read_json, restore_info, run_faulty, setup,
                         shrink_faulty as shrink, write_json)
__all__ = ["gen", "run", "post", "shrink", "warm"]
warm = ioops.warm

LEVEL = "fault_enumeration"
CASES = {"quick": 250, "thorough": 15000}
SECONDS = {"quick": 25, "thorough": 550}
RULE = ("One case = (operation, parameters, files that exist already, fault "
        "mode and plan, schedule). Non-trivial: a fault fired, the process "
        "was killed, or two tasks were runnable at one decision.")
REAL = ["all file operations of algotom.io, algotom.post, the visual "
        "searches of algotom.rec and algotom.util", "h5py/HDF5", "Pillow",
        "files on a real scratch file system"]
STUB = ["joblib.Parallel worker pool (simulated)", "directory listing order",
        "CPU count", "clock", "file-system errors, full disk and process "
        "death (LD_PRELOAD seam)"]
ASSUMPTIONS = ["process death, not power loss: what was given to the kernel "
               "survives",
               "new files below the output folder that a killed run could "
               "not remove are allowed here (see C15)"]
OPN = [n for n in ioops.OPS] + ["reslice", "reslice", "save_multi",
                               "tif_to_hdf", "hdf_to_tif"]


def gen(rng, i, tier):
    c = gen_clean(rng, OPN, deep=0.1)
    c["mode"] = c["kind"] = gen_mode(rng, c["op"], (
        "none", "io", "io", "crash", "crash", "crash", "worker"))
    c["fseed"] = rng.randrange(1 << 30)
    c["decoys"] = rng.random() < 0.4
    if c["decoys"]:
        c["p"] = ioops.OPS[c["op"]].again(c["p"])
    return c


def run(case, ctx):
    op, p = ioops.OPS[case["op"]], case["p"]
    root = setup(ctx, op, p)
    if case.get("decoys"):
        plant_decoys(case, ctx, root)
    write_json(ctx.path("before.json"), file_state(root))
    before = file_state(root)
    st, res = run_faulty(case, ctx, root, case["mode"])
    ctx.count("op_%s_%s" % (op.name, st))
    judge(op, p, before, root)
    op.release(res) if st == "ok" else None
    drop_exception(res)
    judge(op, p, before, root)


def judge(op, p, before, root):
    bad = ioops.foreign(op, p, before, file_state(root), litter_ok=True)
    if bad:
        raise Violation("foreign-change", "%s: %s" % (
            op.name, "; ".join("%s %s" % b for b in bad[:4])), op.name)


def post(case, ctx):
    import os
    op, p = ioops.OPS[case["op"]], case["p"]
    restore_info(ctx)
    before = read_json(ctx.path("before.json"))
    if before is None:
        return
    judge(op, p, before, os.path.join(ctx.dir, "w"))
