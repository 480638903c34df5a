"""C16: completed outputs survive a crash and read back as written."""
import os
import random

from dst import ioops
from dst.common import file_state, gen_sched, outcome, simulate
from dst.engine import Violation
from dst.ioprops import (expects_error, gen_faults, judge_files, read_json,
                         setup, shrink_sched, write_json)
__all__ = ["gen", "run", "post", "shrink", "warm"]
warm = ioops.warm

LEVEL = "fault_enumeration"
CASES = {"quick": 250, "thorough": 15000}
SECONDS = {"quick": 25, "thorough": 550}
RULE = ("One case = a history of 1 to 4 operations, each in its own folder, "
        "whose results (open HDF5 datasets included) are kept, released or "
        "forgotten, ended by a process death right after a return, inside a "
        "later operation, at interpreter exit, or by a later operation that "
        "fails. Every operation that had returned is judged in a new "
        "process. Non-trivial: at least one operation returned before the "
        "end.")
REAL = ["all writing operations of algotom.io, algotom.post, the visual "
        "searches", "h5py/HDF5 (its caches and close-on-exit included)",
        "Pillow", "files on a real scratch file system"]
STUB = ["joblib.Parallel worker pool (simulated)", "directory listing order",
        "CPU count", "clock", "process death (LD_PRELOAD seam, _exit)"]
ASSUMPTIONS = ["process death, not power loss: what was given to the kernel "
               "survives; the library does not promise fsync"]
OPN = [n for n, o in ioops.OPS.items() if o.writes] + [
    "hdf_stream", "downsample", "rescale", "tif_to_hdf"]


def gen(rng, i, tier):
    hist = []
    for _ in range(rng.choice((1, 1, 2, 3, 4))):
        while True:
            op = ioops.OPS[rng.choice(OPN)]
            p = op.gen(rng)
            if not expects_error(op, p) and p.get("out") != "array":
                break
        hist.append({"op": op.name, "p": p,
                     "res": rng.choice(("keep", "keep", "release",
                                        "forget"))})
    return {"kind": "history", "hist": hist, "sched": gen_sched(rng),
            "end": rng.choice(("kill", "kill", "in_next", "in_next", "exit",
                               "next_fails")),
            "fseed": rng.randrange(1 << 30)}


def run(case, ctx):
    from dst.iofault import Disk
    hist = case["hist"]
    end = case["end"]
    roots = [setup(ctx, ioops.OPS[h["op"]], h["p"], "w%d" % k)
             for k, h in enumerate(hist)]
    befores = [file_state(r) for r in roots]
    write_json(ctx.path("befores.json"), befores)
    last = len(hist) - 1
    faulty = end in ("in_next", "next_fails") and last > 0
    disk = Disk(roots[last])
    if faulty:
        rng = random.Random("c16:%s" % case["fseed"])
        fl = case.get("faults")
        if fl is None:
            fl = gen_faults(rng, {"open_w": 3, "write": 8, "close": 3,
                                  "read": 6}, crash=(end == "in_next"))
        ctx.info["faults"] = fl
        disk.plan(fl)
    kept = []

    def main(s):
        done = []
        for k, h in enumerate(hist):
            op, p = ioops.OPS[h["op"]], h["p"]
            if faulty and k == last:
                disk.arm()
            try:
                st, res = outcome(op.call, roots[k], p)
            finally:
                disk.disarm()
            if st == "err":
                if faulty and k == last:
                    break
                raise res
            done.append(k)
            write_json(ctx.path("done.json"), done)
            if h["res"] == "keep":
                kept.append(res)
            elif h["res"] == "release":
                op.release(res)
            del res
    simulate(case, ctx, main)
    ctx.fired += disk.clear()
    ctx.nontrivial = True
    ctx.count("end_" + end)
    if end == "exit":
        # what the interpreter does when it ends
        import atexit
        import gc
        kept.clear()
        gc.collect()
        atexit._run_exitfuncs()
    # the child ends with _exit: nothing is freed, flushed or closed any more
    ctx.kept = kept
    ctx.fired.append(["process_end:" + end, 1])


def post(case, ctx):
    done = read_json(ctx.path("done.json")) or []
    befores = read_json(ctx.path("befores.json"))
    for k in done:
        h = case["hist"][k]
        op, p = ioops.OPS[h["op"]], h["p"]
        root = os.path.join(ctx.dir, "w%d" % k)
        try:
            judge_files(op, root, p, befores[k])
            if op.name == "visual":
                for d in op.new_dirs(root, p, befores[k]):
                    op._judge_dir(root, p, d)
        except Violation as v:
            raise Violation("not-durable", "%s had returned; after the "
                            "process ended (%s): %s" % (op.name, case["end"],
                                                        v.msg), op.name)
        ctx.count("judged_" + op.name)
    if done:
        ctx.nontrivial = True


def shrink(c):
    import copy
    for k in range(len(c["hist"])):
        if len(c["hist"]) > 1:
            d = copy.deepcopy(c)
            del d["hist"][k]
            yield d
    if c["end"] != "kill":
        d = copy.deepcopy(c)
        d["end"] = "kill"
        yield d
    yield from shrink_sched(c)
