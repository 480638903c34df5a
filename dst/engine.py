"""
Batch engine: generates cases from VERIF_SEED, runs each one in a forked child
of a warm server process, minimises violations, writes replay and evidence.

    python -m dst.engine check C01 quick|thorough
    python -m dst.engine replay FILE
    python -m dst.engine serve C01          (internal)
"""
import hashlib
import importlib
import json
import os
import queue
import random
import shutil
import signal
import subprocess
import sys
import threading
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DST_REPO", "/repo")
_real_time = time.time
_real_sleep = time.sleep


def load_prop(pid):
    return importlib.import_module("dst.props." + pid.lower())


class Violation(Exception):
    """A property violation; `cls` names its class, `site` the call site."""

    def __init__(self, cls, msg, site=""):
        super().__init__(msg)
        self.cls = cls
        self.msg = msg
        self.site = site


class Ctx:
    def __init__(self, workdir):
        self.dir = workdir
        self.info = {}
        self.stats = {}
        self.fired = []
        self.sims = []
        self.nontrivial = False

    def path(self, *a):
        return os.path.join(self.dir, *a)

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n


# ---------------------------------------------------------------------------
# server side
# ---------------------------------------------------------------------------
def warm_import():
    from dst import sim
    sys.path.insert(0, REPO)
    lib = os.path.join(os.path.realpath(REPO), "algotom") + os.sep
    sim.pre_import(lib)
    import algotom.io.loadersaver
    import algotom.io.converter
    import algotom.post.postprocessing
    import algotom.prep.calculation
    import algotom.prep.conversion
    import algotom.prep.correction
    import algotom.prep.filtering
    import algotom.prep.phase
    import algotom.prep.removal
    import algotom.rec.reconstruction
    import algotom.rec.vertrec
    import algotom.util.calibration
    import algotom.util.correlation
    import algotom.util.simulation
    import algotom.util.utility
    got = os.path.realpath(algotom.io.loadersaver.__file__)
    if not got.startswith(lib):
        raise RuntimeError("algotom imported from %s, not %s" % (got, lib))
    import PIL.Image
    import warnings
    PIL.Image.init()
    warnings.simplefilter("ignore")
    # libraries import plugins lazily on first use: do that once, here
    sim.post_import()


def log_compiles(path):
    """Development: which kernels are compiled inside the children."""
    from numba.core import event

    class L(event.Listener):
        def on_start(self, e):
            pass

        def on_end(self, e):
            d = e.data or {}
            if not e.is_failed:
                with open(path, "a") as f:
                    f.write("%s %s\n" % (getattr(d.get("dispatcher"),
                                                 "__name__", "?"),
                                         d.get("args")))
    event.register("numba:compile", L())


def child_main(prop, case, stage, workdir, wfd):
    out = {"viol": None}
    ctx = Ctx(workdir)
    if os.environ.get("DST_DEBUG"):
        import faulthandler
        faulthandler.dump_traceback_later(60, exit=True)
    if os.environ.get("DST_COMPILELOG"):
        log_compiles(os.environ["DST_COMPILELOG"])
    try:
        try:
            if stage == "run":
                prop.run(case, ctx)
            else:
                prop.post(case, ctx)
        except Violation as v:
            out["viol"] = {"cls": v.cls, "msg": v.msg[:2000], "site": v.site}
        except BaseException as e:
            frames = traceback.extract_tb(e.__traceback__)
            lib = os.path.join(os.path.realpath(REPO), "algotom") + os.sep
            inlib = [f for f in frames if f.filename.startswith(lib)]
            if inlib and not isinstance(e, (KeyboardInterrupt, SystemExit)) \
                    and type(e).__name__ not in ("SimError", "_Killed"):
                # no property allows the library to fail on these inputs
                out["viol"] = {
                    "cls": "unexpected-error",
                    "msg": "%s: %s (in %s)" % (type(e).__name__,
                                               str(e)[:500], inlib[-1].name),
                    "site": inlib[-1].name}
            else:
                out["error"] = traceback.format_exc()[-4000:]
        sw, steps, cp, simt = [], 0, 0, 0.0
        for s in ctx.sims:
            sw.append([list(x) for x in s.switches])
            steps += s.step
            cp += s.choice_points
            simt += s.now - 1.0e9
            for k, v in s.stats.items():
                ctx.count(k, v)
            for f in s.fired:
                ctx.fired.append(["worker:" + f, 1])
        out.update(switches=sw, steps=steps, choices=cp, simt=simt,
                   stats=ctx.stats, fired=ctx.fired, info=ctx.info,
                   nontrivial=bool(ctx.nontrivial))
        data = json.dumps(out, default=str).encode()
    except BaseException:
        data = json.dumps({"viol": None,
                           "error": traceback.format_exc()}).encode()
    view = memoryview(data)
    while view:
        n = os.write(wfd, view)
        view = view[n:]
    os._exit(0)


def run_child(prop, case, stage, workdir, timeout):
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(rfd)
        signal.signal(signal.SIGINT, signal.SIG_DFL)
        child_main(prop, case, stage, workdir, wfd)
    os.close(wfd)
    chunks = []
    deadline = _real_time() + timeout
    import select
    timed_out = False
    while True:
        left = deadline - _real_time()
        if left <= 0:
            timed_out = True
            break
        r, _, _ = select.select([rfd], [], [], left)
        if not r:
            continue
        b = os.read(rfd, 1 << 16)
        if not b:
            break
        chunks.append(b)
    if timed_out:
        os.kill(pid, signal.SIGKILL)
    os.close(rfd)
    _, status = os.waitpid(pid, 0)
    if timed_out:
        return {"viol": None, "timeout": True}
    if os.WIFEXITED(status) and os.WEXITSTATUS(status) == 137:
        return {"viol": None, "crashed": True}
    if os.WIFSIGNALED(status):
        return {"viol": None, "signal": os.WTERMSIG(status)}
    try:
        return json.loads(b"".join(chunks))
    except ValueError:
        return {"viol": None, "error": "child exited with status %d and no "
                                       "result" % status}


def execute(prop, case, base, timeout=120):
    """Run one case: the run stage, then (always, if defined) the post stage
    over what is left on disk."""
    wd = os.path.join(base, "run")
    shutil.rmtree(wd, ignore_errors=True)
    os.makedirs(wd)
    res = run_child(prop, case, "run", wd, timeout)
    if hasattr(prop, "post") and not res.get("viol") and \
            not res.get("error") and not res.get("timeout"):
        c2 = dict(case)
        c2["_outcome"] = {k: res.get(k) for k in
                          ("crashed", "signal", "info", "fired")}
        post = run_child(prop, c2, "post", wd, timeout)
        for k in ("viol", "error", "timeout"):
            if post.get(k):
                res[k] = post[k]
        for k, v in (post.get("stats") or {}).items():
            res.setdefault("stats", {})
            res["stats"][k] = res["stats"].get(k, 0) + v
        if post.get("nontrivial"):
            res["nontrivial"] = True
        res.setdefault("info", {})
        res["info"].update(post.get("info") or {})
        res["fired"] = (res.get("fired") or []) + (post.get("fired") or [])
    elif res.get("signal") and not res.get("viol"):
        res["error"] = "child killed by signal %d" % res["signal"]
    return res


def kernels(everything=False):
    """{(module, name): compiled function} of the library."""
    out = {}
    for mname, m in list(sys.modules.items()):
        if mname.startswith("algotom") and m is not None:
            for k, v in list(vars(m).items()):
                if hasattr(v, "py_func") and hasattr(v, "signatures"):
                    out.setdefault((v.__module__, v.__name__), v)
    gpu = sys.modules.get("dst.gpu")
    if gpu is not None:         # the simulated CUDA kernels
        for k, f in gpu.compiled(everything):
            out[("dst.gpu", k)] = f
    return out


def warm_up(prop, base):
    """Compile kernels and load lazily imported modules.

    A throw-away process calls the library; the server itself only loads what
    was compiled, so that no library function has ever been called in it and
    every case starts from a pristine interpreter."""
    import pickle
    note = os.path.join(os.environ["DST_SCRATCH"], "warm.pkl")
    if not os.path.exists(note):
        pid = os.fork()
        if pid == 0:
            rc = 1
            try:
                before = set(sys.modules)
                prop.warm(base)
                mods = [m for m in sys.modules if m not in before]
                sigs = {k: list(v.signatures) for k, v in kernels().items()}
                with open(note + ".tmp", "wb") as f:
                    pickle.dump((mods, sigs), f)
                os.replace(note + ".tmp", note)
                rc = 0
            except BaseException:
                with open(note + ".err", "w") as f:
                    f.write(traceback.format_exc())
            finally:
                os._exit(rc)
        os.waitpid(pid, 0)
        if not os.path.exists(note):
            try:
                with open(note + ".err") as f:
                    raise RuntimeError(f.read())
            except FileNotFoundError:
                # the warm-up itself died: the cases will show why
                return
    with open(note, "rb") as f:
        mods, sigs = pickle.load(f)
    for m in mods:
        if not m.startswith(("algotom", "__")):
            try:
                importlib.import_module(m)
            except BaseException:
                pass
    ks = kernels(True)
    for k, ss in sigs.items():
        for sig in ss:
            if k in ks:
                ks[k].compile(sig)


def serve(pid):
    out = os.fdopen(os.dup(1), "w", buffering=1)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get("DST_DEBUG"):
        os.dup2(devnull, 2)
    base = os.environ["DST_SERVER_DIR"]
    os.makedirs(base, exist_ok=True)
    try:
        warm_import()
        prop = load_prop(pid)
        if hasattr(prop, "warm"):
            warm_up(prop, base)
    except BaseException:
        out.write(json.dumps({"fatal": traceback.format_exc()}) + "\n")
        out.flush()
        os._exit(3)
    out.write(json.dumps({"ready": os.getpid()}) + "\n")
    for line in sys.stdin:
        msg = json.loads(line)
        if msg.get("quit"):
            break
        try:
            t_case = _real_time()
            res = execute(prop, msg["case"], base, msg.get("timeout", 120))
            res["wall"] = _real_time() - t_case
        except BaseException:
            res = {"viol": None, "error": traceback.format_exc()}
        res["i"] = msg["i"]
        out.write(json.dumps(res, default=str) + "\n")
    os._exit(0)


# ---------------------------------------------------------------------------
# client side
# ---------------------------------------------------------------------------
class Pool:
    def __init__(self, pid, scratch, n):
        self.pid = pid
        self.scratch = scratch
        self.n = n
        self.procs = []
        self.todo = queue.Queue()
        self.done = queue.Queue()
        self.stop = False
        self.fatal = None
        self.peers = []
        # the first server compiles and fills the numba cache; the rest load it
        first = self._start(0)
        self.procs = [first]
        if self.fatal is None:
            with_threads = []
            for k in range(1, n):
                p = self._spawn(k)
                with_threads.append(p)
            if getattr(load_prop(pid), "PEERS", 0):
                self._start_peers(load_prop(pid).PEERS)
            for p in with_threads:
                self._ready(p)
                self.procs.append(p)
        for p in self.procs:
            t = threading.Thread(target=self._feed, args=(p,), daemon=True)
            t.start()

    def _start_peers(self, n):
        from dst import peer
        for k in range(n):
            env = dict(os.environ, PYTHONHASHSEED=str(peer.HASH_SEEDS[k]))
            self.peers.append(subprocess.Popen(
                [sys.executable, "-m", "dst.peer", peer.path(k), self.pid],
                stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env,
                text=True, cwd=VERIF))
        for p in self.peers:
            if p.stdout.readline().strip() != "ready":
                self.fatal = "a peer process died"

    def _spawn(self, k):
        env = dict(os.environ)
        env["DST_SERVER_DIR"] = os.path.join(self.scratch, "s%d" % k)
        env["LD_PRELOAD"] = env["DST_SHIM"]
        if k % 2 == 1:
            # determinism must not lean on hash order
            env["PYTHONHASHSEED"] = str(1000 + k)
        return subprocess.Popen(
            [sys.executable, "-m", "dst.engine", "serve", self.pid],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env,
            text=True, cwd=VERIF)

    def _ready(self, p):
        line = p.stdout.readline()
        try:
            msg = json.loads(line)
        except ValueError:
            msg = {"fatal": "server died: %r" % line}
        if "fatal" in msg:
            self.fatal = msg["fatal"]

    def _start(self, k):
        p = self._spawn(k)
        self._ready(p)
        return p

    def _feed(self, p):
        while True:
            item = self.todo.get()
            if item is None:
                return
            try:
                p.stdin.write(json.dumps(item) + "\n")
                p.stdin.flush()
                line = p.stdout.readline()
                self.done.put(json.loads(line))
            except Exception as e:
                self.done.put({"i": item["i"], "viol": None,
                               "error": "server lost: %r" % e})
                return

    def submit(self, i, case, timeout=120):
        self.todo.put({"i": i, "case": case, "timeout": timeout})

    def map(self, cases, timeout=120):
        for i, c in enumerate(cases):
            self.submit(("m", i), c, timeout)
        out = [None] * len(cases)
        for _ in cases:
            r = self.done.get()
            out[r["i"][1]] = r
        return out

    def close(self):
        for p in self.procs + self.peers:
            try:
                p.kill()
                p.wait()
            except Exception:
                pass


def same(v, cls):
    return v is not None and v["cls"] == cls


def minimise(prop, pool, case, res, deadline):
    """Shrink workload, faults and schedule while the class persists."""
    cls = res["viol"]["cls"]
    tried = 0

    def attempt(cands):
        nonlocal tried
        if not cands or _real_time() > deadline:
            return None
        tried += len(cands)
        for c, r in zip(cands, pool.map(cands)):
            if same(r.get("viol"), cls):
                return c, r
        return None

    best, bres = case, res
    # 1. workload and fault shrinking under the seeded schedule
    progress = True
    rounds = 0
    while progress and _real_time() < deadline and rounds < 40:
        rounds += 1
        progress = False
        cands = []
        fl = best.get("faults")
        if fl:
            for k in range(len(fl)):
                c = json.loads(json.dumps(best))
                del c["faults"][k]
                cands.append(c)
        if hasattr(prop, "shrink"):
            src = json.loads(json.dumps(best))
            src["_info"] = bres.get("info")
            for c in prop.shrink(src):
                c.pop("_info", None)
                cands.append(c)
                if len(cands) >= 32:
                    break
        got = attempt(cands)
        if got:
            best, bres = got
            progress = True
    # 2. schedule: make it explicit, then drop switches (ddmin)
    sw = bres.get("switches") or []
    if len(sw) == 1 and "sched" in best:
        exp = json.loads(json.dumps(best))
        exp["sched"]["explicit"] = {str(a): b for a, b in sw[0]}
        got = attempt([exp])
        if got:
            best, bres = got
            n = 2
            items = sorted(best["sched"]["explicit"].items(),
                           key=lambda x: int(x[0]))
            while len(items) >= 1 and _real_time() < deadline:
                size = max(1, len(items) // n)
                cands = []
                for s in range(0, len(items), size):
                    keep = items[:s] + items[s + size:]
                    c = json.loads(json.dumps(best))
                    c["sched"]["explicit"] = dict(keep)
                    cands.append(c)
                got = attempt(cands[:64])
                if got:
                    best, bres = got
                    items = sorted(best["sched"]["explicit"].items(),
                                   key=lambda x: int(x[0]))
                    n = max(2, n - 1)
                elif size == 1:
                    break
                else:
                    n = min(len(items), n * 2)
    return best, bres, tried


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    try:
        with open(p) as f:
            return json.load(f)
    except FileNotFoundError:
        return {"findings": [], "fixed": []}


def is_known(known, pid, viol):
    for k in known.get("findings", []):
        if k["property"] == pid and k["cls"] == viol["cls"] and \
                k.get("site", "") == viol.get("site", ""):
            return k
    return None


def digest(res):
    h = hashlib.sha256()
    h.update(json.dumps([res.get("viol"), res.get("switches"),
                         res.get("steps"), res.get("fired"),
                         res.get("info")], sort_keys=True,
                        default=str).encode())
    return h.hexdigest()


def check(pid, tier):
    t0 = _real_time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    prop = load_prop(pid)
    scratch = os.environ["DST_SCRATCH"]
    ncpu = int(os.environ.get("DST_PROCS", "0")) or min(8, os.cpu_count() or 1)
    wall_cap = float(os.environ.get("DST_WALL", "0")) or \
        (420.0 if tier == "quick" else 780.0)
    soft = prop.SECONDS.get(tier) if hasattr(prop, "SECONDS") else None
    soft = float(os.environ.get("DST_SECONDS", "0")) or soft
    print("[%s] seed=%d tier=%s repo=%s" % (pid, seed, tier, REPO), flush=True)
    pool = Pool(pid, scratch, ncpu)
    if pool.fatal:
        print(pool.fatal, file=sys.stderr)
        pool.close()
        # the library does not even import or warm up: report as an error
        return 2
    t_warm = _real_time() - t0
    known = load_known()
    total = prop.CASES[tier]
    total = int(os.environ.get("DST_CASES", total))
    repeat_every = 25

    def case_of(i):
        rng = random.Random("%s:%s:%s" % (pid, seed, i))
        c = prop.gen(rng, i, tier)
        c["_seed"] = "%s:%s:%s" % (pid, seed, i)
        return c

    pending, nexti = {}, 0
    agg = {"evals": 0, "nontriv": set(), "inter": set(), "stats": {},
           "fired": {}, "steps": 0, "choices": 0, "simt": 0.0, "crashed": 0,
           "timeouts": 0, "errors": [], "repeat": 0, "repeat_bad": [],
           "knownhits": {}, "signals": 0, "kinds": {}}
    samples = []
    violation = None
    digests = {}
    depth = len(pool.procs) * 3
    stop = False
    retry = {}
    slow = []

    def want_more():
        if stop or violation is not None:
            return False
        el = _real_time() - t0
        if el > wall_cap:
            return False
        if soft is not None and el > soft + t_warm and nexti >= total:
            return False
        return nexti < total or (soft is not None and el < soft + t_warm)

    while True:
        while len(pending) < depth and want_more():
            c = case_of(nexti)
            pending[("c", nexti)] = c
            pool.submit(("c", nexti), c)
            if nexti % repeat_every == 0:
                pending[("r", nexti)] = c
                pool.submit(("r", nexti), c)
            nexti += 1
        if not pending:
            break
        try:
            r = pool.done.get(timeout=300)
        except queue.Empty:
            agg["errors"].append("no server answered for 300 s")
            break
        key = tuple(r["i"])
        case = pending.pop(key)
        if r.get("timeout"):
            agg["timeouts"] += 1
            if os.environ.get("DST_SLOW"):
                print("timeout", key, json.dumps(case), flush=True)
            if retry.get(key, 0) < 1 and violation is None:
                retry[key] = 1
                pending[key] = case
                pool.submit(key, case, 240)
                continue
            r["viol"] = {"cls": "no-progress",
                         "msg": "run did not finish within 240 s of wall "
                                "time, twice", "site": ""}
        if r.get("signal") and r.get("error"):
            # the process died (not by the plan): real if it does so again
            agg["died"] = agg.get("died", 0) + 1
            if retry.get(key, 0) < 1:
                retry[key] = 1
                pending[key] = case
                pool.submit(key, case)
                continue
            r["error"] = None
            r["viol"] = {"cls": "process-died", "msg": "the process was "
                         "killed by signal %d, twice" % r["signal"],
                         "site": ""}
        slow.append((round(r.get("wall") or 0, 2), key[1],
                     case.get("op") or case.get("kind")))
        if r.get("error"):
            agg["errors"].append("case %s: %s" % (key, r["error"]))
            if len(agg["errors"]) > 3:
                stop = True
            continue
        d = digest(r)
        if key[1] in digests:
            agg["repeat"] += 1
            if digests.pop(key[1]) != d:
                agg["repeat_bad"].append(key[1])
        elif key[1] % repeat_every == 0:
            digests[key[1]] = d
        if key[0] == "r":
            continue
        agg["evals"] += 1
        agg["crashed"] += bool(r.get("crashed"))
        agg["signals"] += bool(r.get("signal"))
        for k, v in (r.get("stats") or {}).items():
            agg["stats"][k] = agg["stats"].get(k, 0) + v
        for k, n in (r.get("fired") or []):
            agg["fired"][k] = agg["fired"].get(k, 0) + n
        agg["steps"] += r.get("steps") or 0
        agg["choices"] += r.get("choices") or 0
        agg["simt"] += r.get("simt") or 0.0
        ckind = case.get("kind") or case.get("op") or "case"
        agg["kinds"][ckind] = agg["kinds"].get(ckind, 0) + 1
        canon = json.dumps({k: v for k, v in case.items()
                            if not k.startswith("_")
                            and k not in ("sched",)}, sort_keys=True)
        hh = hashlib.sha256((canon + json.dumps(r.get("switches"))
                             + json.dumps(r.get("fired"))).encode()).digest()
        if r.get("switches"):
            agg["inter"].add(hashlib.sha256(json.dumps(
                r["switches"]).encode()).digest()[:12])
        if r.get("nontrivial") or r.get("crashed"):
            agg["nontriv"].add(hh[:12])
        if len(samples) < 3 and (r.get("nontrivial") or r.get("crashed")):
            samples.append({"case": {k: v for k, v in case.items()},
                            "switches": len((r.get("switches") or [[]])[0])
                            if r.get("switches") else 0,
                            "fired": r.get("fired"),
                            "crashed": bool(r.get("crashed")),
                            "info": r.get("info")})
        if r.get("viol"):
            kf = is_known(known, pid, r["viol"])
            if kf is not None:
                kid = kf["id"]
                agg["knownhits"].setdefault(kid, [0, kf])
                agg["knownhits"][kid][0] += 1
            elif violation is None:
                violation = (case, r)
    wall = _real_time() - t0
    rc = 0
    vio_count = 0
    replay_path = None
    if violation is not None:
        vio_count = 1
        case, r = violation
        mini, mres, tried = case, r, 0
        if r["viol"]["cls"] != "no-progress":
            try:
                mini, mres, tried = minimise(
                    prop, pool, case, r,
                    min(_real_time() + 90, t0 + 800))
            except Exception:
                traceback.print_exc()
        # confirm in fresh children before reporting
        conf = pool.map([mini, mini]) if r["viol"]["cls"] != "no-progress" \
            else []
        reproducible = all(same(x.get("viol"), mres["viol"]["cls"])
                           for x in conf)
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        replay_path = os.path.join(VERIF, "replays",
                                   "%s-%s.json" % (pid, hashlib.sha256(
                                       json.dumps(mini, sort_keys=True)
                                       .encode()).hexdigest()[:10]))
        with open(replay_path, "w") as f:
            json.dump({"property": pid, "verif_seed": seed,
                       "seed": case.get("_seed"), "case": mini,
                       "violation": mres["viol"],
                       "original_case": case,
                       "original_violation": r["viol"],
                       "shrink_attempts": tried,
                       "reproduced": reproducible,
                       "schedule": mres.get("switches"),
                       "fired": mres.get("fired")}, f, indent=1)
        print("violation class=%s site=%s\n  %s" % (
            mres["viol"]["cls"], mres["viol"].get("site"),
            mres["viol"]["msg"]))
        print("  minimised case: %s" % json.dumps(mini)[:1500])
        print("VIOLATION property=%s replay=%s" % (pid, replay_path),
              flush=True)
        rc = 1
    pool.close()
    for kid, (n, kf) in sorted(agg["knownhits"].items()):
        print("KNOWN-FINDING: property=%s %s (seen %d times)"
              % (pid, kf["what"], n))
    for kf in known.get("findings", []):
        if kf["property"] == pid and kf["id"] not in agg["knownhits"] \
                and kf.get("always_list", True):
            print("KNOWN-FINDING: property=%s %s (not reached in this run)"
                  % (pid, kf["what"]))
    if agg["errors"] and rc == 0:
        print("HARNESS ERROR: " + "\n".join(agg["errors"][:5]),
              file=sys.stderr)
        rc = 2
    if agg["repeat_bad"]:
        print("note: %d of %d repeated runs differed: %s" % (
            len(agg["repeat_bad"]), agg["repeat"], agg["repeat_bad"][:5]))
    wall = _real_time() - t0
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": prop.LEVEL,
        "coverage": {
            "evaluations": agg["evals"],
            "distinct_nontrivial": len(agg["nontriv"]),
            "rule": prop.RULE,
            "samples": samples[:3],
            "workload_kinds": agg["kinds"],
            "faults_injected": agg["fired"],
            "process_crashes_injected": agg["crashed"],
            "distinct_interleavings": len(agg["inter"]),
            "interleaving_measure":
                "distinct sequences of (yield step, task) switches",
            "scheduler_steps": agg["steps"],
            "scheduling_choices": agg["choices"],
            "simulated_seconds": round(agg["simt"], 3),
            "seeds_per_hour": int(agg["evals"] / max(wall, 1e-3) * 3600),
            "probes": agg["stats"],
            "determinism_repeats": agg["repeat"],
            "determinism_mismatches": len(agg["repeat_bad"]),
            "library_aborts_under_fault": agg["signals"],
            "wall_timeouts": agg["timeouts"],
            "components_real": prop.REAL,
            "components_stub": prop.STUB,
        },
        "assumptions": prop.ASSUMPTIONS,
        "wall_s": round(wall, 2),
        "violations": vio_count,
    }
    evdir = os.environ.get("DST_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    if os.environ.get("DST_SLOW"):
        print("warm-up %.1f s, slowest" % t_warm, sorted(slow)[-12:])
    with open(os.path.join(evdir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("[%s] %d runs, %d distinct non-trivial, %d interleavings, faults %s,"
          " repeats %d (%d differ), %.1f s, exit %d"
          % (pid, agg["evals"], len(agg["nontriv"]), len(agg["inter"]),
             sum(agg["fired"].values()) + agg["crashed"], agg["repeat"],
             len(agg["repeat_bad"]), wall, rc), flush=True)
    return rc


def replay(path):
    with open(path) as f:
        rep = json.load(f)
    pid = rep["property"]
    pool = Pool(pid, os.environ["DST_SCRATCH"], 1)
    if pool.fatal:
        print(pool.fatal, file=sys.stderr)
        return 2
    r = pool.map([rep["case"]], 240)[0]
    pool.close()
    if r.get("error"):
        print(r["error"], file=sys.stderr)
        return 2
    if r.get("timeout"):
        r["viol"] = {"cls": "no-progress", "msg": "timeout", "site": ""}
    print(json.dumps({k: r.get(k) for k in ("viol", "switches", "fired",
                                            "steps", "wall")})[:3000])
    if r.get("viol"):
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    print("replay of %s: no violation on this tree" % path)
    return 0


def main(argv):
    cmd = argv[1]
    if cmd == "serve":
        serve(argv[2])
        return
    if cmd == "check":
        rc = check(argv[2], argv[3] if len(argv) > 3 else
                   os.environ.get("VERIF_TIER", "quick"))
    elif cmd == "replay":
        rc = replay(argv[2])
    elif cmd == "case":             # development: write case number N out
        prop = load_prop(argv[2])
        sd = "%s:%s:%s" % (argv[2], os.environ.get("VERIF_SEED", "1"),
                           argv[3])
        c = prop.gen(random.Random(sd), int(argv[3]), "quick")
        c["_seed"] = sd
        print(json.dumps({"property": argv[2], "case": c}))
        rc = 0
    else:
        raise SystemExit("unknown command " + cmd)
    sys.stdout.flush()
    os._exit(rc)


if __name__ == "__main__":
    # one module object only: Violation must be one class
    from dst import engine
    engine.main(sys.argv)
