"""C17: a failing worker fails the whole call."""
import random

from dst import funcs, ioops
from dst.common import file_state, gen_sched, outcome, simulate
from dst.engine import Violation
from dst.funcprops import (PAR, call, func_pool_sizes, reference,
                           shrink as shrink_func)
from dst.ioprops import (EXCS, check_foreign, drop_exception, expects_error,
                         gen_clean, gen_worker_fault, judge_files,
                         pool_sizes, run_faulty, setup, shrink_faulty)
__all__ = ["gen", "run", "shrink", "warm"]

LEVEL = "fault_enumeration"
CASES = {"quick": 250, "thorough": 15000}
SECONDS = {"quick": 45, "thorough": 550}
RULE = ("One case = (parallel call and arguments, worker count and kind, "
        "schedule, 1 or 2 worker faults: an exception before, after or at "
        "the n-th executed source line of one task, a worker death, a long "
        "delay). Each case runs the call without the fault, with it, and "
        "again without it. Non-trivial: a fault fired.")
REAL = ["every function of the library that takes a worker count",
        "files on a real scratch file system"]
STUB = ["joblib.Parallel and executor worker pools (simulated)",
        "CPU count", "clock"]
ASSUMPTIONS = ["a dead worker is reported by the pool as an exception of the "
               "pool's call, as joblib does"]
OPN = [n for n, o in ioops.OPS.items() if o.parallel]


def warm(base):
    funcs.warm(base)
    ioops.warm(base)


def gen(rng, i, tier):
    if rng.random() < 0.4:
        c = gen_clean(rng, OPN, deep=0.05)
        c["kind"] = "io"
    else:
        f = funcs.FUNCS[PAR[(i * 7 + rng.randrange(2)) % len(PAR)]]
        c = {"kind": "func", "p": f.gen(rng), "sched": gen_sched(rng)}
        if c["p"]["ncore"] == 1 and rng.random() < 0.7:
            c["p"]["ncore"] = rng.choice((2, 3))
        c["op"] = f.name
    c["reps"] = 1 if c["kind"] == "io" else 2 if funcs.FUNCS[
        c["op"]].heavy and c["op"] != "slice_metric_dfi" else 12
    c["nf"] = rng.choice((1, 1, 1, 2))
    c["delay"] = rng.random() < (0.25 if c["kind"] == "io" else 0.12)
    c["fseed"] = rng.randrange(1 << 30)
    return c


def plan(case, ctx, sizes, rep=0):
    wf = case.get("wfaults")
    if wf is None:
        rng = random.Random("wf:%s:%d" % (case["fseed"], rep))
        wf = [gen_worker_fault(rng, sizes) for _ in range(case["nf"])]
        if rep > 1:             # every exception class at some line
            j = (case["fseed"] + rep) % len(EXCS)
            wf[0]["kind"] = "exc_line" if j else rng.choice(
                ("exc_before", "exc_after", "kill"))
            wf[0]["exc"] = EXCS[j]
        if case["delay"] and rep < 2 or rep == 1:
            for f in wf:
                f["kind"] = "delay"
                f["dt"] = rng.choice((0.01, 1.0, 60.0, 3600.0))
        ctx.info["wfaults"] = wf
    return wf


def verdict(st, res, fired, name, wf, clean_fails):
    """True if the result has to be judged."""
    hard = [k for k in fired if k in ("exc_before", "exc_after", "kill")]
    if st == "ok":
        if hard:
            raise Violation("failure-swallowed", "%s returned although a "
                            "worker failed (%s)" % (name, wf), name)
        return True
    if not [k for k in fired if k != "delay"] and not clean_fails:
        raise res
    return False


def run(case, ctx):
    (run_io if case["kind"] == "io" else run_func)(case, ctx)


def run_func(case, ctx):
    p = case["p"]
    name = p["f"]
    rst, ref = reference(p)
    sizes, cst, cres = func_pool_sizes(case, ctx, p)
    if rst == "err" or cst == "err":
        if rst != cst:
            raise (ref if rst == "err" else cres)
        ctx.count("call_refused")
        return
    funcs.close(cres, ref, name, "wrong-result", name)
    reps = case.get("reps", 1) if sizes else 1
    for rep in range(1 if case.get("wfaults") else reps):
        wf = plan(case, ctx, sizes, rep)
        st, res = simulate(case, ctx, lambda s: outcome(call, p, 1234),
                           worker_faults=wf, trace_main=False)
        fired = list(ctx.sims[-1].fired)
        ctx.count("fault_%s" % st)
        if fired:
            ctx.nontrivial = True
            ctx.count("hit_" + name)
        if verdict(st, res, fired, name, wf, False):
            funcs.close(res, ref, name + " with a failing worker",
                        "wrong-after-failure", name)
        drop_exception(res)
    st, res = simulate(case, ctx, lambda s: outcome(call, p, 1234))
    if st == "err":
        raise Violation("repeat-fails", "%s, repeated after a worker failure,"
                        " raised %s: %s" % (name, type(res).__name__, res),
                        name)
    funcs.close(res, ref, name + " repeated after a worker failure",
                "wrong-after-failure", name)


def run_io(case, ctx):
    op, p = ioops.OPS[case["op"]], case["p"]
    if expects_error(op, p):
        ctx.count("call_refused")
        return
    wf = plan(case, ctx, pool_sizes(case, ctx)
              if case.get("wfaults") is None else None)
    root = setup(ctx, op, p)
    before = file_state(root)
    st, res = run_faulty(dict(case, wfaults=wf), ctx, root, "worker")
    fired = list(ctx.sims[-1].fired)
    if fired:
        ctx.count("hit_" + op.name)
    if verdict(st, res, fired, op.name, wf, False):
        op.result(root, p, res)
        op.release(res)
        judge_files(op, root, p, before)
        check_foreign(op, p, before, root)
    drop_exception(res)
    q = op.again(p)
    b2 = file_state(root)
    st, res = simulate(case, ctx, lambda s: outcome(op.call, root, q))
    if st == "err":
        raise Violation("repeat-fails", "%s, repeated after a worker failure,"
                        " raised %s: %s" % (op.name, type(res).__name__, res),
                        op.name)
    op.result(root, q, res)
    op.release(res)
    judge_files(op, root, q, b2)


def shrink(c):
    if c["kind"] == "io":
        yield from shrink_faulty(c)
        return
    info = c.pop("_info", None) or {}
    if info.get("wfaults") is not None and c.get("wfaults") is None:
        yield dict(c, wfaults=info["wfaults"])
    yield from shrink_func(c)
