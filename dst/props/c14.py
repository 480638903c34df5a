"""C14: an I/O failure is never reported as success."""
import os
import shutil

from dst import ioops
from dst.common import file_state
from dst.ioprops import (drop_exception, expects_error, gen_clean, judge_files,
                         read_json, restore_info, run_faulty, setup,
                         shrink_faulty as shrink, write_json)
from dst.engine import Violation
__all__ = ["gen", "run", "post", "shrink", "warm"]
warm = ioops.warm

LEVEL = "fault_enumeration"
CASES = {"quick": 250, "thorough": 15000}
SECONDS = {"quick": 25, "thorough": 550}
RULE = ("One case = (operation, parameters, I/O fault plan placed on one of "
        "the file operations that a clean run of the same call makes, "
        "schedule). Non-trivial: a fault fired.")
REAL = ["all file operations of algotom.io, algotom.post, the visual "
        "searches of algotom.rec and algotom.util", "h5py/HDF5", "Pillow",
        "files on a real scratch file system"]
STUB = ["joblib.Parallel worker pool (simulated)", "directory listing order",
        "CPU count", "clock", "file-system errors, short reads and writes, "
        "full disk (LD_PRELOAD seam)"]
ASSUMPTIONS = ["faults strike system calls on data files; metadata queries "
               "(stat) and memory mapping do not fail"]
WIDE = ("load_multi", "emulator", "tif_to_hdf", "hdf_to_tif", "save_multi",
        "rescale", "stats", "stack_images")


def gen(rng, i, tier):
    c = gen_clean(rng, list(ioops.OPS), deep=0.1)
    c["kind"] = c["op"]
    c["past"] = False
    if c["op"] in WIDE and rng.random() < 0.35:
        # images that take more than one read
        c["p"]["shape"][1:] = [rng.choice((40, 56)), rng.choice((64, 90))]
    c["fseed"] = rng.randrange(1 << 30)
    return c


def run(case, ctx):
    op, p = ioops.OPS[case["op"]], case["p"]
    root = setup(ctx, op, p)
    before = file_state(root)
    st, res = run_faulty(case, ctx, root, "io")
    ctx.count("%s_%s" % ("fired" if ctx.fired else "unfired", st))
    ctx.count("op_" + op.name)
    if st == "err":
        if not ctx.fired and not expects_error(op, p):
            raise res
        drop_exception(res)
        return
    if expects_error(op, p):
        return
    # what is on the disk at the return counts, not what is written at exit
    shutil.copytree(root, ctx.path("snap"), symlinks=True)
    write_json(ctx.path("ok.json"), before)
    op.result(root, p, res)
    op.release(res)


def post(case, ctx):
    op, p = ioops.OPS[case["op"]], case["p"]
    restore_info(ctx)
    before = read_json(ctx.path("ok.json"))
    if before is None or case["_outcome"].get("crashed"):
        return
    root = os.path.join(ctx.dir, "snap")
    try:
        judge_files(op, root, p, before)
    except Violation as v:
        raise Violation("silent-failure", "%s returned normally under %s, "
                        "but: %s" % (op.name, case["_outcome"].get("fired"),
                                     v.msg), op.name)
