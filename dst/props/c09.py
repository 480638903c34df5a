"""C09: conversion between tif folders and HDF5 keeps every image."""
from dst.ioprops import gen_clean, run_clean, shrink          # noqa: F401

LEVEL = "exploration"
CASES = {"quick": 250, "thorough": 15000}
SECONDS = {"quick": 22, "thorough": 400}
RULE = ("One case = (folder or HDF5 file, names, crop, indices, axis, "
        "metadata, pattern, listing order). Non-trivial: the folder was "
        "listed in a non-sorted order, or the request was cropped, stepped "
        "or along another axis.")
REAL = ["algotom.io.converter", "algotom.io.loadersaver", "h5py/HDF5",
        "Pillow", "files on a real scratch file system"]
STUB = ["directory listing order", "clock"]
ASSUMPTIONS = ["indices are in range and not negative (except the -1 that "
               "means 'to the end')"]


def gen(rng, i, tier):
    c = gen_clean(rng, ("tif_to_hdf", "hdf_to_tif"), deep=0.0, large=0.25)
    c["kind"] = c["op"]
    return c


def run(case, ctx):
    run_clean(case, ctx)
    p = case["p"]
    if case["op"] == "tif_to_hdf":
        ctx.nontrivial = case["sched"]["listing"] != "sorted"
    else:
        ctx.nontrivial = bool(any(p["crop"]) or p["axis"]
                              or isinstance(p["index"], int)
                              or p["index"][2] != 1)
