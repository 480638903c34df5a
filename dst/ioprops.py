"""Running catalogue operations: shared by the file-handling properties."""
import copy
import gc
import os
import random
import re
import shutil

from dst import ioops
from dst.common import (Violation, file_state, gen_sched, outcome, simulate)


def setup(ctx, op, p, sub="w"):
    root = ctx.path(sub)
    os.makedirs(root)
    ioops.bystanders(root)
    op.prepare(root, p)
    ioops.clutter(op, root, p)
    return root


def gen_op(rng, names, **over):
    op = ioops.OPS[rng.choice(names)]
    p = op.gen(rng)
    p.update(over)
    return op.name, p


def expects_error(op, p):
    f = getattr(op, "expect_error", None)
    return bool(f and f(p))


def judge_files(op, root, p, before):
    if op.name == "save_multi":
        op.files(root, p, before)
    elif op.name != "visual":
        op.files(root, p)


def check_foreign(op, p, before, root, cls="foreign-change"):
    bad = ioops.foreign(op, p, before, file_state(root))
    if bad:
        raise Violation(cls, "%s: %s" % (op.name, "; ".join(
            "%s %s" % b for b in bad[:4])))


def run_clean(case, ctx):
    """No faults: any schedule, listing order, host; full judgement."""
    op, p = ioops.OPS[case["op"]], case["p"]
    root = setup(ctx, op, p)
    before = file_state(root)
    if case.get("past"):
        # the same request on other data of the same place and names before
        def main(s):
            st, res = outcome(op.call, root, dict(p))
            if st == "ok":
                op.release(res)
            drop_exception(res)
            del res
            shutil.rmtree(root)
            setup(ctx, op, p)
            return outcome(op.call, root, p)
        shutil.rmtree(root)
        setup(ctx, op, dict(p, seed=p["seed"] ^ 1))
        ctx.count("with_past")
    elif case.get("rewrite") and not expects_error(op, p) and \
            op.name != "visual":
        # other data were written to the same place before
        p0 = dict(p, seed=p["seed"] ^ 1)
        if "content" in p:
            p0["content"] = "blocks" if p["content"] != "blocks" else "noise"
        shutil.rmtree(root)
        setup(ctx, op, p0)
        st, res = simulate(case, ctx, lambda s: outcome(op.call, root, p0))
        if st == "err":
            raise res
        op.release(res)
        del res
        gc.collect()
        shutil.rmtree(os.path.join(root, "in"), ignore_errors=True)
        os.makedirs(os.path.join(root, "in"))
        op.prepare(root, dict(p, existing=0))
        before = file_state(root)
        p = op.again(p)
        ctx.count("rewritten")

        def main(s):
            return outcome(op.call, root, p)
    else:
        def main(s):
            return outcome(op.call, root, p)
    st, res = simulate(case, ctx, main,
                       extra_trace=case.get("deep", False),
                       trace_main=True)
    if expects_error(op, p):
        if st == "ok":
            raise Violation("missing-error", "%s accepted a wrong request"
                            % op.name)
        if op.writes and file_state(root) != before:
            raise Violation("refused-but-wrote", "%s refused the request but "
                            "changed files" % op.name)
        ctx.count("refused")
        return
    if st == "err":
        raise res
    op.result(root, p, res)
    op.release(res)
    judge_files(op, root, p, before)
    check_foreign(op, p, before, root)
    ctx.count("op_" + op.name)
    return res


def gen_clean(rng, names, deep=0.15, large=None):
    if large:
        rng.large = large
    name, p = gen_op(rng, names)
    return {"op": name, "p": p, "sched": gen_sched(rng),
            "deep": rng.random() < deep and max(p.get("shape", [1])) < 24,
            "past": rng.random() < 0.15 and "seed" in p,
            "rewrite": rng.random() < 0.15 and "seed" in p}


def drop_exception(res):
    """Forget an exception so that the objects of its frames are freed."""
    if isinstance(res, BaseException):
        res.__traceback__ = None
        res.__context__ = None
        res.__cause__ = None
    gc.collect()


SIMPLE = (("existing", (0, False)), ("deep", (False,)), ("meta", (False,)),
          ("ncore", (2,)), ("prefer", ("threads",)), ("dtype", ("float32",)),
          ("names", ("pad",)), ("ext", ("tif",)), ("layout", ("C",)),
          ("rotate", (0.0,)), ("rescaling", (False,)), ("chunks", (False,)),
          ("pattern", (False,)), ("zeros", (False,)), ("flat", (False,)),
          ("dark", (False,)), ("fix", (False,)), ("num_use", (None,)),
          ("denoise", (False,)), ("content", ("noise",)), ("as_path", (False,)), ("png", (False,)),
          ("progress", (False,)), ("decoys", (False,)), ("target", ("folder",)))


def shrink(c):
    p = c.get("p")
    if p:
        for k in ("crop",):
            if any(p.get(k) or []):
                d = copy.deepcopy(c)
                d["p"][k] = [0] * len(p[k])
                yield d
        for k, vals in SIMPLE:
            if k in p:
                for v in vals:
                    if type(p[k]) is type(v) and p[k] != v or (
                            p[k] is None and v is not None):
                        d = copy.deepcopy(c)
                        d["p"][k] = v
                        yield d
    yield from shrink_sched(c)


def shrink_sched(c):
    if c.get("past"):
        d = copy.deepcopy(c)
        d["past"] = False
        yield d
    for k in ("deep", "rewrite", "decoys"):
        if c.get(k):
            d = copy.deepcopy(c)
            d[k] = False
            yield d
    for k, v in (("opcodes", False), ("policy", "fifo"), ("clock", "steady"),
                 ("listing", "sorted"), ("ncpu", 3)):
        if c["sched"].get(k) != v:
            d = copy.deepcopy(c)
            d["sched"][k] = v
            yield d


# ------------------------------------------------------------ disk faults
ERR_W = ("EIO", "ENOSPC", "EDQUOT", "EROFS")
ERR_R = ("EIO", "ESTALE")


def gen_faults(rng, counts=None, crash=False, nofail=(), quiet_close=True):
    """Draw 1..3 file-system faults.  `counts` = operations a clean run makes
    (kind -> number): the position of a fault is drawn inside that range."""
    out = []
    counts = counts or {}
    for _ in range(rng.choice((1, 1, 1, 2, 3))):
        r = rng.random()
        kinds = [k for k, n in counts.items() if n and k not in nofail] or \
            ["open_r", "open_w", "read", "write"]
        kind = rng.choice(kinds)
        nth = 1 + rng.randrange(max(1, counts.get(kind, 12)))
        if crash:
            out.append({"kind": kind if rng.random() < 0.7 else "any",
                        "nth": nth if rng.random() < 0.7 else
                        1 + rng.randrange(max(1, sum(counts.values()))),
                        "action": rng.choice(("crash", "crash_after",
                                              "crash_torn")),
                        "errno": "EIO", "param": rng.randrange(1000)})
            break
        if r < 0.15:
            out.append({"capacity": rng.choice((0, 1, 100, 300, 1000, 2048,
                                                4096, 8192, 12000))
                        + rng.randrange(64)})
            continue
        f = {"kind": kind, "nth": nth, "param": rng.randrange(1, 1000)}
        if kind in ("read", "open_r"):
            f["errno"] = rng.choice(ERR_R + (("EMFILE", "EACCES", "ENOENT")
                                             if kind == "open_r" else ()))
            f["action"] = rng.choice(("fail", "fail", "sticky") + (
                ("short",) if kind == "read" else ()))
        elif kind == "write":
            f["errno"] = rng.choice(ERR_W)
            f["action"] = rng.choice(("fail", "fail", "torn", "sticky",
                                      "short"))
        else:
            f["errno"] = rng.choice(ERR_W + ("EACCES",))
            f["action"] = rng.choice(("fail", "fail", "sticky"))
        out.append(f)
    return out


def probe_counts(case, ctx):
    """File operations of a clean run of the same call (fresh directory)."""
    from dst.iofault import Disk
    op, p = ioops.OPS[case["op"]], case["p"]
    root = setup(ctx, op, p, "probe")
    disk = Disk(root)

    def main(s):
        disk.arm()
        try:
            st, res = outcome(op.call, root, p)
            op.release(res)
            return st
        finally:
            disk.disarm()
    st = simulate(case, ctx, main)
    counts = disk.counts()
    disk.clear()
    gc.collect()
    import shutil
    shutil.rmtree(root)
    return st, counts


def faults_for(case, ctx, crash=False, nofail=()):
    """The case's fault plan; drawn from a probe run unless it is fixed."""
    if case.get("faults") is not None:
        return case["faults"]
    st, counts = probe_counts(case, ctx)
    rng = random.Random("faults:%s" % case["fseed"])
    fl = gen_faults(rng, counts, crash=crash, nofail=nofail)
    ctx.info["faults"] = fl
    write_json(ctx.path("faults.json"), fl)
    return fl


def restore_info(ctx):
    """After a crash of the run stage its notes are read back from disk."""
    fl = read_json(ctx.path("faults.json"))
    if fl is not None:
        ctx.info["faults"] = fl


def plant_decoys(case, ctx, root):
    """Give the user files (and folders) with the names that a clean run of
    the same call opens for writing, renames to or makes, wherever these are
    not its declared outputs."""
    from dst.iofault import Disk
    op, p = ioops.OPS[case["op"]], case["p"]
    probe = setup(ctx, op, p, "probe")
    disk = Disk(probe)

    def main(s):
        disk.arm()
        try:
            st, res = outcome(op.call, probe, p)
            op.release(res)
        finally:
            disk.disarm()
        return drop_exception(res)
    simulate(case, ctx, main)
    made = disk.paths()
    disk.clear()
    base = os.path.realpath(probe)
    shutil.rmtree(probe)
    pats = [re.compile(x) for x in op.outputs(p)]
    n = 0
    for kind, path in made:
        rel = os.path.relpath(os.path.realpath(path), base)
        key = rel + "/" if kind == "d" else rel
        dst = os.path.join(root, rel)
        up = os.path.dirname(rel) + "/"
        if rel.startswith("..") or any(r.match(key) for r in pats) or \
                os.path.lexists(dst):
            continue
        if not os.path.isdir(os.path.dirname(dst)):
            if not any(r.match(up) for r in pats):
                continue
            os.makedirs(os.path.dirname(dst))
        if kind == "d":
            os.makedirs(dst)
            dst = os.path.join(dst, "mine.txt")
        with open(dst, "w") as f:
            f.write("of the user\n" * 50)
        n += 1
    ctx.count("decoys", n)


# ------------------------------------------------------- runs with faults
def write_json(path, obj):
    """Durable note of the harness for the post stage (outside the root)."""
    import json
    tmp = path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(obj, f)
    os.replace(tmp, path)


def read_json(path):
    import json
    try:
        with open(path) as f:
            return json.load(f)
    except FileNotFoundError:
        return None


def pool_sizes(case, ctx):
    """(number of tasks, most source lines run by one task) of every pool
    call of a clean run."""
    op, p = ioops.OPS[case["op"]], case["p"]
    root = setup(ctx, op, p, "probe")
    keep = {}

    def main(s):
        st, res = outcome(op.call, root, p)
        keep["sizes"] = [(n, s.pool_lines.get(k, 0))
                         for k, n in enumerate(s.pool_sizes)]
        op.release(res)
        return st
    simulate(case, ctx, main, trace_main=True)
    gc.collect()
    import shutil
    shutil.rmtree(root)
    return keep["sizes"]


EXCS = ("InjectedWorkerFailure", "InjectedWorkerFailure", "MemoryError",
        "OSError", "ValueError", "KeyError", "IndexError",
        "ZeroDivisionError", "LinAlgError", "TimeoutError")


def gen_worker_fault(rng, sizes):
    call = rng.randrange(len(sizes)) if sizes else 0
    n, lines = sizes[call] if sizes else (1, 0)
    line = 1 + int(rng.random() ** 2 * 60)
    if lines and rng.random() < 0.8:
        line = 1 + rng.randrange(lines)
    return {"call": call, "task": rng.randrange(max(1, n)),
            "kind": rng.choice(("exc_before", "exc_line", "exc_line",
                                "exc_line", "exc_line", "exc_line",
                                "exc_after", "kill")),
            "exc": rng.choice(EXCS),
            "line": line}


def run_faulty(case, ctx, root, mode, trace_main=True):
    """Call the operation under the faults of the case's mode.

    mode: "none" | "io" | "crash" | "worker".  Returns (status, result).
    A crash ends the process inside this function."""
    from dst.iofault import Disk
    op, p = ioops.OPS[case["op"]], case["p"]
    wf, disk = None, None
    if mode == "worker":
        wf = case.get("wfaults")
        if wf is None:
            sizes = pool_sizes(case, ctx)
            wf = [gen_worker_fault(random.Random("wf:%s" % case["fseed"]),
                                   sizes)]
            ctx.info["wfaults"] = wf
    elif mode in ("io", "crash"):
        fl = faults_for(case, ctx, crash=(mode == "crash"),
                        nofail=case.get("nofail", ()))
        disk = Disk(root)
        disk.plan(fl)

    def main(s):
        if disk:
            disk.arm()
        try:
            return outcome(op.call, root, p)
        finally:
            if disk:
                disk.disarm()
    st, res = simulate(case, ctx, main, worker_faults=wf,
                       extra_trace=case.get("deep", False),
                       trace_main=trace_main)
    if disk:
        fired = disk.clear()
        ctx.fired += fired
        if fired:
            ctx.nontrivial = True
    if wf and ctx.sims[-1].fired:
        ctx.nontrivial = True
    return st, res


def gen_mode(rng, op, modes):
    """Fault mode for an operation ('worker' only where it has workers)."""
    ms = [m for m in modes if m != "worker" or ioops.OPS[op].parallel]
    return rng.choice(ms)


def shrink_faulty(c):
    """Make the drawn faults explicit, then shrink as usual."""
    info = c.pop("_info", None) or {}
    for k in ("faults", "wfaults"):
        if info.get(k) is not None and c.get(k) is None:
            d = copy.deepcopy(c)
            d[k] = info[k]
            yield d
    yield from shrink(c)
