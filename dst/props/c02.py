"""C02: parallel image loading keeps file order and content."""
import os

from dst import ioops
from dst.common import Violation, gen_sched, outcome, simulate, file_state
from dst.ioprops import gen_clean, run_clean, setup, shrink

LEVEL = "exploration"
CASES = {"quick": 250, "thorough": 12000}
SECONDS = {"quick": 22, "thorough": 500}
RULE = ("One case = (folder of images, request, worker count and kind, "
        "schedule, listing order, optionally one unreadable image). "
        "Non-trivial: at least two tasks were runnable at one scheduling "
        "decision, or an image was unreadable.")
REAL = ["algotom.io.loadersaver.load_image_multiple, find_file, load_image",
        "algotom.io.converter.HdfEmulatorFromTif", "Pillow decoding",
        "files on a real scratch file system"]
STUB = ["joblib.Parallel worker pool (simulated)", "directory listing order",
        "CPU count", "clock", "file system errors (LD_PRELOAD seam)"]
ASSUMPTIONS = ["CPython with the GIL: pre-emption between bytecodes",
               "an unreadable image is missing, truncated, garbage, or fails "
               "with an I/O error on open or read"]


def gen(rng, i, tier):
    c = gen_clean(rng, ("load_multi", "emulator"), large=0.25)
    c["kind"] = "clean"
    if rng.random() < 0.3:
        c["kind"] = "broken"
        c["how"] = rng.choice(("truncate", "garbage", "delete", "open_r",
                               "read", "empty"))
        c["which"] = rng.randrange(100)
        c["p"]["folders"] = c["past"] = False
    return c


def run(case, ctx):
    if case["kind"] == "clean":
        run_clean(case, ctx)
        return
    op, p = ioops.OPS[case["op"]], dict(case["p"])
    root = setup(ctx, op, p)
    d = os.path.join(root, "in/data")
    files = sorted(f for f in os.listdir(d) if f.lower().endswith(
        (".tif", ".tiff", ".png")))
    victim = os.path.join(d, files[case["which"] % len(files)])
    how = case["how"]
    disk = None
    opened = {}
    if how in ("truncate", "garbage", "empty"):
        b = open(victim, "rb").read()
        # damage the pixel data, not only the trailing directory
        b = {"truncate": b[:max(9, len(b) // 3)], "garbage": b"\x00" * len(b),
             "empty": b""}[how]
        with open(victim, "wb") as f:
            f.write(b)
    elif how == "delete":
        pass
    else:
        from dst.iofault import Disk
        disk = Disk(root)
        disk.plan([{"kind": how, "nth": 1, "action": "sticky",
                    "errno": "EIO", "sub": os.path.basename(victim)}])

    # which images does the request touch?
    def touched():
        v = list(range(p["shape"][0]))
        if op.name == "load_multi":
            return [sorted(files).index(os.path.basename(x))
                    for x in op._paths(root, p) if os.path.exists(x)]
        t = {0}
        for s in p["sel"]:
            z = s if s[0] != "t" else s[1]
            r = op._idx(z)
            t.update([v[r]] if isinstance(r, int) else v[r])
        return sorted(t)
    uses = case["which"] % len(files) in touched()

    def main(s):
        if how == "delete":
            if op.name == "emulator":
                # the file vanishes after the folder was opened
                p["_between"] = lambda: os.remove(victim)
            else:
                os.remove(victim)
        if disk:
            disk.arm()
        try:
            return outcome(op.call, root, p)
        finally:
            if disk:
                disk.disarm()
    st, res = simulate(case, ctx, main)
    if disk:
        fired = disk.clear()
        ctx.fired += fired
    else:
        ctx.fired.append(["image:" + how, 1])
    ctx.nontrivial = True
    if op.name == "emulator" and how == "delete":
        uses = case["which"] % len(files) in _later(op, p)
    if st == "ok":
        if uses or p.get("missing") is not None:
            raise Violation("missing-error", "%s returned although image %d "
                            "was unreadable (%s)" % (
                                op.name, case["which"] % len(files), how))
        op.result(root, p, res)
    elif not uses and p.get("missing") is None:
        raise res
    ctx.count("broken_" + how)


def _later(op, p):
    v = list(range(p["shape"][0]))
    t = set()
    for s in p["sel"]:
        z = s if s[0] != "t" else s[1]
        r = op._idx(z)
        t.update([v[r]] if isinstance(r, int) else v[r])
    return t
