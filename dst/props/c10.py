"""C10: image-stack loaders return the requested images, corrected, in order."""
from dst.ioprops import gen_clean, run_clean, shrink          # noqa: F401

LEVEL = "exploration"
CASES = {"quick": 250, "thorough": 15000}
SECONDS = {"quick": 22, "thorough": 400}
RULE = ("One case = (loader, number and kind of datasets, image-type key, "
        "index, crop, fields, options, listing order). Non-trivial: more than "
        "one dataset, a correction field, a crop or a non-sorted listing.")
REAL = ["algotom.io.loadersaver stack loaders", "h5py/HDF5", "Pillow",
        "files on a real scratch file system"]
STUB = ["directory listing order", "clock"]
ASSUMPTIONS = ["all datasets of one request have the same image-type key"]


def gen(rng, i, tier):
    c = gen_clean(rng, ("stack_dls", "stack_ref_sam", "stack_images"),
                  deep=0.0, large=0.2)
    c["kind"] = c["op"]
    return c


def run(case, ctx):
    run_clean(case, ctx)
    p = case["p"]
    ctx.nontrivial = bool(p.get("nfile", p.get("nset", 1)) > 1 or p["flat"]
                          or p["dark"] or any(p["crop"])
                          or case["sched"]["listing"] != "sorted")
