"""C08: dataset post-processing equals the in-memory computation."""
from dst.ioprops import gen_clean, run_clean, shrink          # noqa: F401

LEVEL = "exploration"
CASES = {"quick": 250, "thorough": 15000}
SECONDS = {"quick": 22, "thorough": 500}
RULE = ("One case = (source kind, output kind, operation and its parameters, "
        "crop, chunk size, worker count, schedule, listing order, clock, "
        "progress). Non-trivial: at least two tasks were runnable at one "
        "scheduling decision, or the folder was listed in a shuffled order.")
REAL = ["algotom.post.postprocessing", "algotom.io.loadersaver", "h5py/HDF5",
        "Pillow", "files on a real scratch file system"]
STUB = ["joblib.Parallel worker pool (simulated)", "directory listing order",
        "CPU count", "clock"]
ASSUMPTIONS = ["CPython with the GIL: pre-emption between bytecodes",
               "integer results may differ by one grey level between sources "
               "(float32 or float64 intermediate)"]


def gen(rng, i, tier):
    c = gen_clean(rng, ("downsample", "rescale", "reslice", "reslice",
                        "stats"), deep=0.05, large=0.25)
    c["kind"] = c["op"]
    return c


def run(case, ctx):
    run_clean(case, ctx)
    if ctx.stats.get("listings"):
        ctx.nontrivial = True
