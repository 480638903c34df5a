"""Running catalogue functions under the simulator (C12, C17, C18, C19...)."""
import copy
import random
import warnings

import numpy as np

from dst import funcs
from dst.common import outcome, simulate

PAR = [n for n, f in funcs.FUNCS.items() if f.par]
LIGHT = [n for n, f in funcs.FUNCS.items() if not f.heavy]
_REF = {}


def call(p, seed=None, **over):
    """Call a catalogue function on fresh arguments."""
    f = funcs.FUNCS[p["f"]]
    a, k = f.args(p)
    k = dict(k, **over)
    if seed is not None:
        np.random.seed(seed)
    return f.fn()(*a, **k)


def reference(p, seed=1234):
    """('ok', result) or ('err', exc) of the call outside the simulation, by
    a single worker."""
    q = dict(p)
    if funcs.FUNCS[p["f"]].par:
        q["ncore"] = 1
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        st = np.random.get_state()
        try:
            return outcome(call, q, seed)
        finally:
            np.random.set_state(st)


def func_pool_sizes(case, ctx, p):
    keep = {}

    def main(s):
        st, res = outcome(call, p, 1234)
        keep["sizes"] = [(n, s.pool_lines.get(k, 0))
                         for k, n in enumerate(s.pool_sizes)]
        return st, res
    st, res = simulate(case, ctx, main)
    return keep["sizes"], st, res


def shrink(c):
    """Smaller function cases: simpler schedule, fewer workers."""
    from dst.ioprops import shrink_sched
    for k in ("p",):
        if c.get(k) and "ncore" in c[k]:
            for n in (2, 1):
                if c[k]["ncore"] is None or c[k]["ncore"] > n:
                    d = copy.deepcopy(c)
                    d[k]["ncore"] = n
                    yield d
    yield from shrink_sched(c)
