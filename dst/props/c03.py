"""C03: parallel image saving puts every slice in its own file."""
from dst.ioprops import gen_clean, run_clean, shrink          # noqa: F401

LEVEL = "exploration"
CASES = {"quick": 250, "thorough": 15000}
SECONDS = {"quick": 22, "thorough": 500}
RULE = ("One case = (array, axis, memory layout, targets, files that exist "
        "already, overwrite flag, worker count and kind, schedule). "
        "Non-trivial: at least two tasks were runnable at one scheduling "
        "decision.")
REAL = ["algotom.io.loadersaver.save_image_multiple, save_image, make_folder, "
        "make_file_name", "Pillow encoding",
        "files on a real scratch file system"]
STUB = ["joblib.Parallel worker pool (simulated)", "CPU count", "clock"]
ASSUMPTIONS = ["CPython with the GIL: pre-emption between bytecodes",
               "target paths are distinct; fewer than 100000 images"]


def gen(rng, i, tier):
    c = gen_clean(rng, ("save_multi", "save_multi", "save_multi",
                        "save_image"), deep=0.3, large=0.25)
    c["kind"] = c["op"]
    return c


def run(case, ctx):
    run_clean(case, ctx)
