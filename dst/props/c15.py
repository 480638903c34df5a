"""C15: operations can be repeated after failures and leave no litter."""
import os

from dst import ioops
from dst.common import file_state, outcome, simulate
from dst.engine import Violation
from dst.ioprops import (drop_exception, expects_error, gen_clean, gen_mode,
                         judge_files, read_json, restore_info, run_faulty,
                         setup, shrink_faulty as shrink, write_json)
__all__ = ["gen", "run", "post", "shrink", "warm"]
warm = ioops.warm

LEVEL = "fault_enumeration"
CASES = {"quick": 250, "thorough": 15000}
SECONDS = {"quick": 25, "thorough": 550}
RULE = ("One case = (operation, parameters, fault mode and plan, schedule), "
        "run once with the fault and then again without it, in the same "
        "process where its files are images or the fault was in a worker, "
        "and always in a new process. Non-trivial: a fault fired or the "
        "process was killed.")
REAL = ["all file operations of algotom.io, algotom.post, the visual "
        "searches of algotom.rec and algotom.util", "h5py/HDF5", "Pillow",
        "files on a real scratch file system"]
STUB = ["joblib.Parallel worker pool (simulated)", "directory listing order",
        "CPU count", "clock", "file-system errors, full disk and process "
        "death (LD_PRELOAD seam)"]
ASSUMPTIONS = ["HDF5 keeps a file whose close failed registered in the "
               "process, so repeating after a write error of an HDF5 output "
               "is judged in a new process",
               "removal of temporary files itself is not made to fail"]


def gen(rng, i, tier):
    c = gen_clean(rng, list(ioops.OPS) + ["reslice", "reslice", "save_multi"],
                  deep=0.05)
    c["mode"] = c["kind"] = gen_mode(rng, c["op"], (
        "none", "io", "io", "io", "crash", "crash", "worker", "worker"))
    c["fseed"] = rng.randrange(1 << 30)
    c["nofail"] = ["unlink", "rmdir"]
    return c


def hdf_out(op, p):
    return p.get("out") == "hdf" or op.name in (
        "tif_to_hdf", "hdf_stream", "reslice")


def litter(op, p, before, root, what):
    bad = [b for b in ioops.foreign(op, p, before, file_state(root))
           if b[1] == "created"]
    if bad:
        raise Violation("litter", "%s %s and left %s" % (
            op.name, what, [b[0] for b in bad][:4]), op.name)


def again(case, ctx, root, where, before):
    op = ioops.OPS[case["op"]]
    p = op.again(case["p"])
    b2 = file_state(root)
    st, res = simulate(case, ctx, lambda s: outcome(op.call, root, p))
    if expects_error(op, p):
        return
    if st == "err":
        raise Violation("retry-fails", "%s, repeated %s without the fault, "
                        "raised %s: %s" % (op.name, where,
                                           type(res).__name__,
                                           str(res)[:300]), op.name)
    op.result(root, p, res)
    op.release(res)
    judge_files(op, root, p, b2)
    bad = [b for b in ioops.foreign(op, p, b2, file_state(root))]
    if bad:
        raise Violation("litter", "%s, repeated %s, changed %s" % (
            op.name, where, bad[:4]), op.name)
    ctx.count("retried_" + where.split()[-1])


def run(case, ctx):
    op, p = ioops.OPS[case["op"]], case["p"]
    root = setup(ctx, op, p)
    before = file_state(root)
    write_json(ctx.path("before.json"), before)
    st, res = run_faulty(case, ctx, root, case["mode"])
    what = "returned" if st == "ok" else "raised"
    ctx.count("%s_%s" % (case["mode"], what))
    if st == "err" and case["mode"] == "none" and not expects_error(op, p):
        raise res
    if st == "ok":
        op.release(res)
    drop_exception(res)
    del res
    litter(op, p, before, root, what)
    if case["mode"] == "worker" or not hdf_out(op, p) or not ctx.fired:
        again(case, ctx, root, "in the same process", before)


def post(case, ctx):
    restore_info(ctx)
    before = read_json(ctx.path("before.json"))
    if before is None:
        return
    again(case, ctx, os.path.join(ctx.dir, "w"), "in a new process", before)
