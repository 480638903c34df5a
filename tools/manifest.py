"""Write MANIFEST.json from the implemented properties: tools/manifest.py"""
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)

PURE = ("Pure, single-threaded computation on its arguments: no schedule, "
        "clock, I/O, fault or other party takes part, so simulation has "
        "nothing to decide. (That the same functions are free of hidden "
        "state, are safe for concurrent callers and ignore the host is "
        "decided in C12, C18 and C19.)")
NA = {
    "N01": PURE, "N02": PURE, "N03": PURE, "N04": PURE, "N05": PURE,
    "N06": PURE, "N07": PURE, "N08": PURE, "N09": PURE,
    "N10": "Pure function of a file's content; what faults can do to it is "
           "decided in C14 (hdf_tree, hdf_read operations).",
    "N11": PURE + " Its randomness is decided in C19.",
}
TECH = {
    "exploration": "deterministic simulation: seeded search over worker "
                   "schedules and host configurations against a sequential "
                   "reference",
    "fault_enumeration": "deterministic simulation: seeded search over "
                         "schedules, I/O faults, worker faults and process "
                         "deaths",
}
NOTE = {
    "C01": "Every sampled schedule of the simulated pool gave the sequential "
           "result, bit for bit. Trusts the pool model (joblib semantics: "
           "ordered results, copied arguments for process workers).",
    "C04": "Kernels run as written (their Python source) under simulated "
           "threads with memory accesses as scheduling points, and compiled "
           "under the simulated pool. Trusts that the compiled code does the "
           "accesses its source does.",
    "C20": "The sources of the CUDA kernels run on a simulated device (order "
           "and interleaving of its threads, absence and failures from the "
           "seed), host code as is. Trusts that numba's CUDA compiler keeps "
           "the semantics of the source; memory is sequentially consistent.",
    "C05": "As C04, for the vertical-slice kernels and their batching.",
}
DEF = {
    "exploration": "Held on every explored schedule and configuration of the "
                   "real library code; sampling, not a proof. Trusts the "
                   "simulated worker pool and the reference model.",
    "fault_enumeration": "Held on every explored fault position and schedule "
                         "of the real library code on a real file system "
                         "behind an LD_PRELOAD fault seam; sampling of fault "
                         "plans, process death rather than power loss.",
}


def main():
    ids = [json.loads(x)["id"] for x in open(
        os.path.join(V, "properties.jsonl")) if x.strip()]
    checks, na = [], []
    for i in ids:
        f = os.path.join(V, "dst", "props", i.lower() + ".py")
        if os.path.exists(f):
            m = importlib.import_module("dst.props." + i.lower())
            checks.append({
                "property": i, "quick_cmd": "bash check.sh %s quick" % i,
                "thorough_cmd": "bash check.sh %s thorough" % i,
                "evidence_file": "evidence/%s.json" % i,
                "technique": getattr(m, "TECH", TECH[m.LEVEL]),
                "level": m.LEVEL,
                "level_note": getattr(m, "NOTE", NOTE.get(i, DEF[m.LEVEL]))})
        else:
            na.append({"property": i, "reason": NA.get(
                i, "check not built yet")})
    with open(os.path.join(V, "MANIFEST.json"), "w") as fh:
        json.dump({"version": 1, "setup_cmd": "bash setup.sh",
                   "checks": checks, "not_applicable": na,
                   "notes": "No hooks in /repo: the seams are joblib's "
                            "Parallel, os/time functions, numba's py_func "
                            "and LD_PRELOAD. See DESIGN.md."}, fh, indent=1)
        fh.write("\n")
    print(len(checks), "checks,", len(na), "not applicable")


main()
