"""C19: randomised functions are reproducible from the numpy seed."""
import copy
import random
import warnings

import numpy as np

from dst import funcs, peer
from dst.common import gen_sched, obj_hash, outcome, simulate
from dst.engine import Violation
from dst.fresh import fresh
from dst.funcprops import shrink as shrink_func
__all__ = ["gen", "run", "shrink", "warm"]
warm = funcs.warm

PEERS = 5
LEVEL = "exploration"
CASES = {"quick": 300, "thorough": 20000}
SECONDS = {"quick": 25, "thorough": 550}
RULE = ("One case = (function, arguments, numpy seed, history of other calls "
        "before it, host, schedule), run in two processes with different "
        "histories, clocks, process ids and hash seeds. For functions that "
        "are not documented as random: the state of numpy's and Python's "
        "global generators before and after, and the result under two "
        "states. Non-trivial: the history is not empty or the function is "
        "random.")
REAL = ["the in-memory functions of algotom.prep, rec, util and post"]
STUB = ["clock", "CPU count", "joblib.Parallel worker pool (simulated)"]
ASSUMPTIONS = ["the same versions of numpy and of the machine in both "
               "processes"]
RAND = [n for n, f in funcs.FUNCS.items() if f.rand]
PLAIN = [n for n, f in funcs.FUNCS.items() if not f.rand]
LIGHT = [n for n in PLAIN if not funcs.FUNCS[n].heavy]


def gen(rng, i, tier):
    hist = []
    for _ in range(rng.choice((0, 1, 2, 3))):
        p = funcs.FUNCS[rng.choice(LIGHT + RAND)].gen(rng)
        if "ncore" in p:
            p["ncore"] = rng.choice((1, 2))
        hist.append(p)
    # the functions that are not random in turn
    name = PLAIN[(i - i // 3 - 1) % len(PLAIN)] if i % 3 else \
        rng.choice(RAND)
    p = funcs.FUNCS[name].gen(rng)
    if rng.random() < 0.4:
        funcs.FUNCS[name].enlarge(p)
        if p.get("big") and name in RAND and rng.random() < 0.5:
            p["big"] = 24                     # above 65536 pixels
    if name not in RAND and rng.random() < 0.06:
        p["flatten"] = rng.choice(("zero", "one"))
    large = {"f": p["f"]}
    funcs.FUNCS[name].enlarge(large)
    if large.get("big") and rng.random() < 0.3:
        large["big"] = 24
    return {"kind": "random" if name in RAND else "plain", "op": name,
            "large": large.get("big") if name in PLAIN else None,
            "p": p, "hist": hist,
            "npseed": rng.choice((0, 1, rng.randrange(1 << 32))),
            "other": rng.randrange(1, 1 << 31),
            "peers": name in RAND or rng.random() < 0.1,
            "sched": gen_sched(rng)}


def call(p, k_over=None):
    f = funcs.FUNCS[p["f"]]
    a, k = f.args(p)
    if k_over:
        k = dict(k, **k_over)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f.fn()(*a, **k)


def plain_call(p, seed):
    """In a fork: no history, one worker, the real clock."""
    np.random.seed(seed)
    random.seed(seed + 5)
    return call(p, {"ncore": 1} if funcs.FUNCS[p["f"]].par else None)


def peer_call(p, seed):
    """In another process: the result and the state it leaves."""
    res = plain_call(p, seed)
    s = np.random.get_state()
    return res, obj_hash((s[1], s[2], s[3], s[4]))


def states():
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), s[2], s[3], s[4], random.getstate())


def run(case, ctx):
    p, seed = case["p"], case["npseed"]
    name = p["f"]
    f = funcs.FUNCS[name]
    ctx.nontrivial = bool(case["hist"]) or case["kind"] == "random"
    ref = fresh(plain_call, p, seed)
    other = fresh(plain_call, p, seed ^ case["other"])
    if "bad" in (ref[0], other[0]):
        raise RuntimeError("reference of %s: %s" % (name, (ref, other)))
    keep = {}

    def main(s):
        np.random.seed(case["other"])
        for h in case["hist"]:
            outcome(call, h)
        np.random.seed(seed)
        random.seed(99)
        keep["before"] = states()
        keep["res"] = outcome(call, p)
        keep["after"] = states()
        # ... and again in the same process
        np.random.seed(seed)
        keep["again"] = outcome(call, p)
        if f.rand and not f.par:
            # ... and without another seed: new values
            keep["next"] = [outcome(call, p) for _ in range(2)]
        if case.get("large"):
            # ... and on images of a realistic size
            q = dict(p, big=case["large"])
            keep["large"] = []
            for sd in (seed, seed ^ case["other"]):
                np.random.seed(sd)
                a = states()
                r = outcome(call, q)
                keep["large"].append((r, a == states()))
    simulate(case, ctx, main, max_steps=3000000)
    ctx.count("f_" + name)
    for what in ("res", "again"):
        st, res = keep[what]
        if st != ref[0]:
            if st == "err":
                raise res
            raise Violation("missing-error", "%s returned, elsewhere it "
                            "raises %s" % (name, ref[1]), name)
        if st == "ok":
            funcs.close(res, ref[1], "%s, seed %d, another process and "
                        "history (%s)" % (name, seed, what),
                        "not-reproducible", name)
    if ref[0] != "ok":
        return
    if keep["before"][5] != keep["after"][5]:
        raise Violation("advances-state", "%s advances Python's global "
                        "generator" % name, name)
    if case.get("peers"):
        left = set()
        for k in range(PEERS):
            st, res, txt = peer.ask(k, "peer_call", p, seed)
            if st == "bad":
                raise RuntimeError("peer %d: %s %s" % (k, res, txt))
            if st != "ok":
                raise Violation("not-reproducible", "%s raises %s in a process"
                                " with another hash seed" % (name, res), name)
            funcs.close(res[0], ref[1], "%s, seed %d, process with hash seed "
                        "%d" % (name, seed, peer.HASH_SEEDS[k]),
                        "not-reproducible", name)
            left.add(res[1])
        if len(left) > 1:
            raise Violation("not-reproducible", "%s leaves numpy's generator "
                            "in different states" % name, name)
        ctx.count("peer_processes", PEERS)
    if f.rand and not f.par and other[0] == "ok" and \
            obj_hash(other[1]) != obj_hash(ref[1]):
        nx = [obj_hash(r) for st, r in keep["next"] if st == "ok"]
        if len(nx) == 2 and (nx[0] == nx[1] or obj_hash(
                keep["again"][1]) in nx):
            raise Violation("repeats-values", "successive calls of %s return "
                            "the same random values" % name, name)
    if f.rand:
        if other[0] == "ok" and obj_hash(other[1]) == obj_hash(ref[1]) and \
                varies(p, ref, seed):
            raise Violation("ignores-seed", "%s gives the same values under "
                            "several seeds" % name, name)
        return
    if keep.get("large"):
        (one, same1), (two, same2) = keep["large"]
        if not (same1 and same2):
            raise Violation("advances-state", "%s is not random but advances "
                            "a global generator (large images)" % name, name)
        if one[0] != two[0]:
            raise Violation("reads-state", "%s is not random but fails under "
                            "one of two seeds (large images)" % name, name)
        if one[0] == "ok":
            funcs.close(two[1], one[1], "%s on large images under another "
                        "seed" % name, "reads-state", name)
        ctx.count("large_images")
    if keep["before"][:5] != keep["after"][:5]:
        raise Violation("advances-state", "%s is not random but advances "
                        "numpy's global generator" % name, name)
    if other[0] != "ok":
        raise Violation("reads-state", "%s is not random but fails under "
                        "another seed" % name, name)
    funcs.close(other[1], ref[1], "%s under another seed" % name,
                "reads-state", name)


def varies(p, ref, seed):
    """True if no other seed out of eight changes the result."""
    for k in range(1, 9):
        r = fresh(plain_call, p, (seed + 7919 * k) % (1 << 32))
        if r[0] != "ok" or obj_hash(r[1]) != obj_hash(ref[1]):
            return False
    return True


def shrink(c):
    if c.get("large"):
        yield dict(c, large=None)
    for k in range(len(c["hist"])):
        d = copy.deepcopy(c)
        del d["hist"][k]
        yield d
    yield from shrink_func(c)
