"""
The simulator: one seeded scheduler that decides every interleaving, plus the
seams through which the library sees its host (worker pools, CPU count, clock,
directory listing order, numpy's global random generator, locks).

Tasks are real Python threads parked on private semaphores; exactly one holds
the baton at any time, and only the scheduler (a PRNG seeded from the case, or
an explicit list of switches on replay) decides who gets it next.  Control
returns to the scheduler at *yield points*: every traced source line (or
bytecode) of the library, every call of a harness-supplied callable that asks
for it, every access to a shared array in a simulated prange kernel, and every
blocking operation.
"""
import builtins
import os
import random
import sys
import threading
import time as _time
import types

_REAL = {}


class SimError(Exception):
    """Harness error (never a property violation)."""


class Deadlock(Exception):
    """All simulated tasks are blocked: a violation of progress."""


class StepLimit(Exception):
    """The step budget of the run is exhausted: a violation of progress."""


class InjectedWorkerFailure(RuntimeError):
    """An exception raised inside a worker by the fault plan."""


class _Killed(BaseException):
    """Unwinds parked threads at the end of a run."""


class Task:
    __slots__ = ("tid", "name", "thread", "sem", "state", "pred", "fn",
                 "result", "error", "nopre", "prio", "wake", "trace_exc",
                 "lines", "started", "sched")

    def __init__(self, tid, name, fn):
        self.tid = tid
        self.name = name
        self.fn = fn
        self.sem = threading.Semaphore(0)
        self.state = "ready"          # ready | blocked | done
        self.pred = None
        self.wake = None
        self.result = None
        self.error = None
        self.nopre = 0
        self.prio = 0
        self.trace_exc = None         # (line countdown, exception) or None
        self.lines = 0
        self.thread = None
        self.started = False


CURRENT = None          # the Sim of the run in progress (one per process)


class Sim:
    """
    cfg (JSON-able):
      policy   : "rand" | "pct" | "rr" | "lifo" | "fifo"
      p        : switch probability per yield point ("rand")
      d        : number of priority change points ("pct")
      seed     : seed of the schedule PRNG
      opcodes  : also yield between bytecodes of the library
      explicit : {step: tid} replaces the policy (replay / minimisation)
    """

    def __init__(self, cfg, max_steps=400000):
        self.cfg = cfg
        self.rng = random.Random("sched:%s" % (cfg.get("seed", 0),))
        self.policy = cfg.get("policy", "rand")
        self.p = cfg.get("p", 0.2)
        self.opcodes = bool(cfg.get("opcodes", False))
        self.explicit = None
        if cfg.get("explicit") is not None:
            self.explicit = {int(k): int(v)
                             for k, v in cfg["explicit"].items()}
        self.tasks = []
        self.by_ident = {}
        self.step = 0
        self.switches = []            # [(step, tid)] actually taken
        self.max_steps = max_steps
        self.now = 1.0e9
        self.max_ready = 1
        self.choice_points = 0
        self.stats = {}
        self.worker_faults = []       # plan, see SimParallel
        self.parallel_calls = 0
        self.pool_sizes = []
        self.pool_lines = {}          # call -> most lines run by one task
        self.fired = []
        self.tearing_down = False
        self.fatal = None
        self.pct_points = set()
        if self.policy == "pct" and self.explicit is None:
            n = cfg.get("n_est", 2000)
            self.pct_points = {self.rng.randrange(1, n)
                               for _ in range(cfg.get("d", 3))}
        self.trace_dirs = None
        self.clock_mode = "steady"
        self.ncpu = None

    # ---- bookkeeping -----------------------------------------------------
    def count(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    def current(self):
        return self.by_ident.get(threading.get_ident())

    # ---- scheduling ------------------------------------------------------
    def _ready(self):
        out = []
        for t in self.tasks:
            if t.state == "blocked":
                if t.pred is not None and t.pred():
                    t.state = "ready"
                    t.pred = None
                    t.wake = None
            if t.state == "ready":
                out.append(t)
        return out

    def _pick(self, cur, ready):
        """Choose the next task among `ready`; `cur` may be None/not ready."""
        self.step += 1
        if self.step > self.max_steps:
            self.fatal = StepLimit("step budget of %d exhausted"
                                   % self.max_steps)
            raise self.fatal
        if len(ready) > self.max_ready:
            self.max_ready = len(ready)
        if len(ready) == 1:
            return ready[0]
        self.choice_points += 1
        if self.explicit is not None:
            want = self.explicit.get(self.step)
            if want is not None:
                for t in ready:
                    if t.tid == want:
                        return t
            if cur is not None and cur in ready:
                return cur
            return ready[0]
        if self.policy == "rand":
            if cur is not None and cur in ready and self.rng.random() > self.p:
                return cur
            return ready[self.rng.randrange(len(ready))]
        if self.policy == "pct":
            if self.step in self.pct_points and cur is not None:
                cur.prio = -self.step
            return max(ready, key=lambda t: (t.prio, -t.tid))
        if self.policy == "rr":
            if cur is None:
                return ready[0]
            later = [t for t in ready if t.tid > cur.tid]
            return later[0] if later else ready[0]
        if self.policy == "lifo":
            if cur is not None and cur in ready and self.rng.random() > 0.02:
                return cur
            return ready[-1]
        # fifo: never pre-empt
        if cur is not None and cur in ready:
            return cur
        return ready[0]

    def _switch(self, cur, nxt):
        if nxt is cur:
            return
        self.switches.append((self.step, nxt.tid))
        nxt.sem.release()
        if cur is not None and cur.state != "done":
            cur.sem.acquire()
            if self.tearing_down:
                raise _Killed()
            if self.fatal is not None and cur.tid == 0:
                raise self.fatal

    def yield_point(self):
        cur = self.current()
        if cur is None or cur.nopre or self.tearing_down:
            return
        ready = self._ready()
        if len(ready) <= 1:
            self.step += 1
            if self.step > self.max_steps:
                self._abort(StepLimit("step budget of %d exhausted"
                                      % self.max_steps), cur)
            return
        try:
            nxt = self._pick(cur, ready)
        except StepLimit as e:
            self._abort(e, cur)
            return
        self._switch(cur, nxt)

    def _abort(self, err, cur):
        """Hand a fatal scheduling error to the main task."""
        self.fatal = err
        if cur is not None and cur.tid == 0:
            raise err
        main = self.tasks[0]
        main.state = "ready"
        main.pred = None
        main.sem.release()
        cur.sem.acquire()
        raise _Killed()

    def block(self, pred, wake=None):
        """Block the current task until pred() holds."""
        cur = self.current()
        if cur is None:
            raise SimError("block() outside a task")
        if pred():
            self.yield_point()
            return
        cur.state = "blocked"
        cur.pred = pred
        cur.wake = wake
        self._leave(cur)

    def _leave(self, cur):
        """The current task cannot continue: pass the baton on."""
        while True:
            ready = self._ready()
            if ready:
                break
            timers = [t.wake for t in self.tasks
                      if t.state == "blocked" and t.wake is not None]
            if not timers:
                self._abort(Deadlock("all tasks are blocked: %s" % [
                    (t.name, t.state) for t in self.tasks
                    if t.state != "done"]), cur)
                return
            self.now = max(self.now, min(timers))
        if cur.state == "done":
            nxt = self._pick(None, ready)
            self.switches.append((self.step, nxt.tid))
            nxt.sem.release()
            return
        nxt = self._pick(cur if cur in ready else None, ready)
        if nxt is cur:
            return
        self._switch(cur, nxt)

    def sleep(self, dt):
        cur = self.current()
        t_end = self.now + max(0.0, dt)
        if cur is None:
            self.now = t_end
            return
        self.block(lambda: self.now >= t_end, wake=t_end)

    # ---- tasks -----------------------------------------------------------
    def spawn(self, name, fn):
        t = Task(len(self.tasks), name, fn)
        t.sched = self
        if self.policy == "pct" and self.explicit is None:
            t.prio = self.rng.randrange(1, 1 << 20)
        self.tasks.append(t)

        def body():
            t.sem.acquire()
            if self.tearing_down:
                return
            self.by_ident[threading.get_ident()] = t
            t.started = True
            try:
                self._install_trace(t)
                t.result = t.fn()
            except _Killed:
                return
            except BaseException as e:      # noqa: B902 - recorded, re-raised
                t.error = e
            finally:
                sys.settrace(None)
            t.state = "done"
            if not self.tearing_down:
                try:
                    self._leave(t)
                except _Killed:
                    pass
                except (StepLimit, Deadlock):
                    self.tasks[0].state = "ready"
                    self.tasks[0].sem.release()

        th = threading.Thread(target=body, daemon=True,
                              name="sim-%d-%s" % (t.tid, name))
        t.thread = th
        th.start()
        return t

    def join(self, tasks):
        self.block(lambda: all(t.state == "done" for t in tasks))

    def run(self, main_fn):
        """Run main_fn as task 0 in the calling thread."""
        global CURRENT
        t = Task(0, "main", main_fn)
        t.sched = self
        t.thread = threading.current_thread()
        t.started = True
        self.tasks.append(t)
        self.by_ident[threading.get_ident()] = t
        CURRENT = self
        try:
            return main_fn()
        finally:
            sys.settrace(None)
            CURRENT = None
            self.tearing_down = True
            t.state = "done"
            self.by_ident.pop(threading.get_ident(), None)
            for o in self.tasks[1:]:
                if o.state != "done":
                    o.sem.release()

    def drain(self):
        """Let every other task finish (called by the main task)."""
        me = self.current()
        self.join([t for t in self.tasks if t is not me])

    # ---- tracing: pre-emption at source lines / bytecodes ------------------
    def _install_trace(self, task):
        dirs = self.trace_dirs
        if not dirs:
            return
        sim = self
        opcodes = self.opcodes

        def local(frame, event, arg):
            if event == "line" or event == "opcode":
                if task.trace_exc is not None and event == "line" and \
                        not task.nopre:
                    task.trace_exc[0] -= 1
                    if task.trace_exc[0] <= 0:
                        exc = task.trace_exc[1]
                        task.trace_exc = None
                        raise exc
                if event == "line":
                    task.lines += 1
                if not task.nopre:
                    sim.yield_point()
            return local

        def glob(frame, event, arg):
            fname = frame.f_code.co_filename
            if fname.startswith(dirs):
                if opcodes:
                    frame.f_trace_opcodes = True
                return local
            return None

        sys.settrace(glob)

    def trace_here(self):
        """Install line tracing for the current (main) task."""
        cur = self.current()
        if cur is not None:
            self._install_trace(cur)


# ---------------------------------------------------------------------------
# Seams
# ---------------------------------------------------------------------------
class nopreempt:
    def __enter__(self):
        self.t = CURRENT.current() if CURRENT is not None else None
        if self.t is not None:
            self.t.nopre += 1

    def __exit__(self, *a):
        if self.t is not None:
            self.t.nopre -= 1


def _pickler():
    import cloudpickle
    import pickle
    return cloudpickle.dumps, pickle.loads


def _freeze(obj, limit):
    """joblib memory-maps big array arguments read-only in process workers."""
    import numpy as np
    if isinstance(obj, np.ndarray) and obj.nbytes >= limit:
        obj.flags.writeable = False
    elif isinstance(obj, (tuple, list)):
        for o in obj:
            _freeze(o, limit)
    elif isinstance(obj, dict):
        for o in obj.values():
            _freeze(o, limit)


class SimParallel:
    """
    Stand-in for joblib.Parallel: same call contract (results in submission
    order, first failure raised, sequential when n_jobs is 1, process workers
    see pickled copies of their arguments), every start, interleaving and
    completion decided by the simulator.
    """

    def __init__(self, n_jobs=None, backend=None, return_as="list",
                 verbose=0, timeout=None, pre_dispatch="2 * n_jobs",
                 batch_size="auto", temp_folder=None, max_nbytes="1M",
                 mmap_mode="r", prefer=None, require=None, **kw):
        self.n_jobs_arg = n_jobs
        self.backend = backend
        self.return_as = return_as
        self.prefer = prefer
        self.require = require
        self.timeout = timeout
        if prefer not in (None, "threads", "processes"):
            raise ValueError("prefer=%r is not a valid backend hint" % prefer)
        if require not in (None, "sharedmem"):
            raise ValueError("require=%r is not a valid backend constraint"
                             % require)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def _effective(self):
        n = self.n_jobs_arg
        if n is None:
            n = 1
        n = int(n)
        if n == 0:
            raise ValueError("n_jobs == 0 in Parallel has no meaning")
        if n < 0:
            import multiprocessing as mp
            n = max(mp.cpu_count() + 1 + n, 1)
        return n

    @property
    def n_jobs(self):
        return self._effective()

    def _kind(self, n):
        b = self.backend
        if b is not None and not isinstance(b, str):
            b = type(b).__name__.lower()
        if n == 1 and (b is None or "sequential" not in str(b)):
            return "sequential"
        if b in ("threading", "threads"):
            return "threads"
        if b in ("sequential",):
            return "sequential"
        if b in ("loky", "multiprocessing", "processes"):
            return "processes"
        if self.require == "sharedmem" or self.prefer == "threads":
            return "threads"
        return "processes"

    def __call__(self, iterable):
        sim = CURRENT
        me = sim.current() if sim is not None else None
        if me is None:
            real = _REAL["Parallel"](
                n_jobs=self.n_jobs_arg, backend=self.backend,
                return_as=self.return_as, prefer=self.prefer,
                require=self.require)
            return real(iterable)
        n = self._effective()
        kind = self._kind(n)
        call_no = sim.parallel_calls
        sim.parallel_calls += 1
        sim.pool_sizes.append(0)
        sim.count("pool_" + kind)
        if kind == "sequential":
            gen = self._sequential(iterable, sim, call_no)
            return list(gen) if self.return_as == "list" else gen
        out = self._pooled(iterable, sim, me, n, kind, call_no)
        if self.return_as == "list":
            return [r for _, r in sorted(out.items())]
        if self.return_as == "generator_unordered":
            return iter(list(out.values()))      # completion order
        return iter([r for _, r in sorted(out.items())])

    def _sequential(self, iterable, sim, call_no):
        me = sim.current()
        for idx, (fn, args, kwargs) in enumerate(iterable):
            sim.pool_sizes[call_no] = idx + 1
            f = _fault(sim, call_no, idx)
            if f is not None:
                sim.fired.append(f["kind"])
                if f["kind"] == "delay":
                    sim.sleep(f.get("dt", 5.0))
                elif f["kind"] == "exc_line":
                    me.trace_exc = [f.get("line", 1), _make_exc(f)]
                elif f["kind"] != "exc_after":
                    raise _make_exc(f)
            ln = me.lines
            try:
                res = fn(*args, **kwargs)
            finally:
                if f is not None:
                    me.trace_exc = None
                sim.pool_lines[call_no] = max(me.lines - ln,
                                              sim.pool_lines.get(call_no, 0))
            if f is not None and f["kind"] == "exc_after":
                raise _make_exc(f)
            yield res

    def _pooled(self, iterable, sim, me, n, kind, call_no):
        it = iter(iterable)
        results = {}
        queue = []
        state = {"next": 0, "exhausted": False, "error": None, "idle": 0,
                 "abort": False, "pull_err": None}
        dumps, loads = _pickler() if kind == "processes" else (None, None)
        limit = sim.cfg.get("memmap_limit", 1 << 20)

        def pull():
            """Take one more item from the caller's generator."""
            if state["exhausted"] or state["abort"]:
                return
            cur = sim.current()
            cur.nopre += 1
            try:
                item = next(it)
                if kind == "processes":
                    item = dumps(item)
                queue.append((state["next"], item))
                state["next"] += 1
            except StopIteration:
                state["exhausted"] = True
            except _Killed:
                raise
            except BaseException as e:
                state["exhausted"] = True
                state["abort"] = True
                if state["error"] is None:
                    state["error"] = e
            finally:
                cur.nopre -= 1

        for _ in range(2 * n):
            pull()
        workers = []

        def run_item(idx, item, task):
            f = _fault(sim, call_no, idx)
            if f is not None:
                sim.fired.append(f["kind"])
                if f["kind"] == "kill" and kind == "processes":
                    from joblib.externals.loky.process_executor import \
                        TerminatedWorkerError
                    raise TerminatedWorkerError(
                        "A worker process managed by the executor was "
                        "unexpectedly terminated. (injected)")
                if f["kind"] in ("exc_before", "kill"):
                    raise _make_exc(f)
                if f["kind"] == "exc_line":
                    task.trace_exc = [f.get("line", 1), _make_exc(f)]
                if f["kind"] == "delay":
                    sim.sleep(f.get("dt", 5.0))
            if kind == "processes":
                fn, args, kwargs = loads(item)
                _freeze(args, limit)
                _freeze(kwargs, limit)
            else:
                fn, args, kwargs = item
            ln = task.lines
            try:
                res = fn(*args, **kwargs)
            finally:
                task.trace_exc = None
                sim.pool_lines[call_no] = max(task.lines - ln,
                                              sim.pool_lines.get(call_no, 0))
            if kind == "processes":
                res = loads(dumps(res))
            if f is not None and f["kind"] == "exc_after":
                raise _make_exc(f)
            return res

        def worker():
            task = sim.current()
            while True:
                sim.yield_point()
                if state["abort"] or not queue:
                    return
                idx, item = queue.pop(0)
                try:
                    results[idx] = run_item(idx, item, task)
                except _Killed:
                    raise
                except BaseException as e:
                    state["abort"] = True
                    if state["error"] is None:
                        state["error"] = e
                    return
                del item
                pull()

        for w in range(min(n, max(1, len(queue)))):
            workers.append(sim.spawn("w%d.%d" % (call_no, w), worker))
        if sim.cfg.get("zombies"):
            sim.block(lambda: state["error"] is not None or
                      all(t.state == "done" for t in workers))
        elif self.timeout is not None:
            end = sim.now + self.timeout
            while any(t.state != "done" for t in workers):
                sim.block(lambda: sim.now >= end or all(
                    t.state == "done" for t in workers), wake=end)
                if sim.now >= end and any(t.state != "done"
                                          for t in workers):
                    state["abort"] = True
                    raise TimeoutError("worker pool (simulated)")
        else:
            sim.join(workers)
        sim.count("pool_tasks", state["next"])
        sim.pool_sizes[call_no] = state["next"]
        if state["error"] is not None:
            raise state["error"]
        return results


def _fault(sim, call_no, idx):
    """The planned fault of one pool task, if any (used once)."""
    for f in sim.worker_faults:
        if f.get("used"):
            continue
        if f["call"] in (None, call_no) and f["task"] == idx:
            f["used"] = True
            return f
    return None


def _make_exc(f):
    e = f.get("exc", "InjectedWorkerFailure")
    if e == "MemoryError":
        return MemoryError("injected")
    if e == "OSError":
        return OSError(5, "injected Input/output error")
    if e in ("ValueError", "KeyError", "IndexError", "ZeroDivisionError",
             "TypeError", "FloatingPointError", "TimeoutError"):
        return getattr(builtins, e)("injected")
    if e == "LinAlgError":
        import numpy as np
        return np.linalg.LinAlgError("injected")
    return InjectedWorkerFailure("injected worker failure")


class SimFuture:
    def __init__(self, sim):
        self._sim = sim
        self._done = False
        self._res = None
        self._err = None
        self._cbs = []

    def done(self):
        return self._done

    def cancel(self):
        return False

    def cancelled(self):
        return False

    def running(self):
        return not self._done

    def add_done_callback(self, cb):
        if self._done:
            cb(self)
        else:
            self._cbs.append(cb)

    def _wait(self, timeout=None):
        if not self._done and timeout is not None:
            end = self._sim.now + timeout
            self._sim.block(lambda: self._done or self._sim.now >= end,
                            wake=end)
            if not self._done:
                raise TimeoutError()
        elif not self._done:
            self._sim.block(lambda: self._done)

    def result(self, timeout=None):
        self._wait(timeout)
        if self._err is not None:
            raise self._err
        return self._res

    def exception(self, timeout=None):
        self._wait(timeout)
        return self._err


class SimExecutor:
    """Stand-in for concurrent.futures executors (thread or process kind)."""
    kind = "threads"

    def __init__(self, max_workers=None, *a, **k):
        sim = CURRENT
        if max_workers is None:
            import os as _os
            max_workers = min(32, (_os.cpu_count() or 1) + 4)
        if max_workers <= 0:
            raise ValueError("max_workers must be greater than 0")
        self._sim = sim
        self._n = int(max_workers)
        self._queue = []
        self._workers = []
        self._active = 0
        self._call = sim.parallel_calls
        sim.parallel_calls += 1
        sim.pool_sizes.append(0)
        sim.count("pool_executor")

    def submit(self, fn, *args, **kwargs):
        sim = self._sim
        fut = SimFuture(sim)
        item = (fn, args, kwargs)
        if self.kind == "processes":
            item = _pickler()[0](item)
        idx = sim.pool_sizes[self._call]
        sim.pool_sizes[self._call] += 1
        self._queue.append((fut, item, idx))
        if self._active < self._n:
            self._active += 1
            self._workers.append(sim.spawn("ex", self._work))
        sim.yield_point()
        return fut

    def _work(self):
        sim = self._sim
        while self._queue:
            fut, item, idx = self._queue.pop(0)
            task = sim.current()
            f = _fault(sim, self._call, idx)
            try:
                if f is not None:
                    sim.fired.append(f["kind"])
                    if f["kind"] in ("exc_before", "kill"):
                        raise _make_exc(f)
                    if f["kind"] == "exc_line":
                        task.trace_exc = [f.get("line", 1), _make_exc(f)]
                    if f["kind"] == "delay":
                        sim.sleep(f.get("dt", 5.0))
                if self.kind == "processes":
                    item = _pickler()[1](item)
                fn, a, k = item
                ln = task.lines
                try:
                    res = fn(*a, **k)
                finally:
                    task.trace_exc = None
                    sim.pool_lines[self._call] = max(
                        task.lines - ln, sim.pool_lines.get(self._call, 0))
                if f is not None and f["kind"] == "exc_after":
                    raise _make_exc(f)
                fut._res = res
            except _Killed:
                raise
            except BaseException as e:
                fut._err = e
            fut._done = True
            for cb in fut._cbs:
                cb(fut)
            sim.yield_point()
        self._active -= 1

    def map(self, fn, *its, timeout=None, chunksize=1):
        futs = [self.submit(fn, *a) for a in zip(*its)]

        end = None if timeout is None else self._sim.now + timeout

        def gen():
            for f in futs:
                yield f.result(None if end is None else
                               max(0.0, end - self._sim.now))
        return gen()

    def shutdown(self, wait=True, cancel_futures=False):
        if wait:
            self._sim.join(self._workers)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.shutdown(True)
        return False


class SimProcExecutor(SimExecutor):
    kind = "processes"


def _executor_factory(real, simcls):
    class Factory(real):
        def __new__(cls, *a, **k):
            if CURRENT is not None and CURRENT.current() is not None:
                return simcls(*a, **k)
            return real(*a, **k)
    Factory.__name__ = real.__name__
    return Factory


class SimLock:
    """Lock handed to library code: real outside a run, simulated inside."""

    def __init__(self, reentrant=False):
        self._real = (_REAL["RLock"] if reentrant else _REAL["Lock"])()
        self._re = reentrant
        self._owner = None
        self._depth = 0

    def acquire(self, blocking=True, timeout=-1):
        sim = CURRENT
        cur = sim.current() if sim is not None else None
        if cur is None:
            return self._real.acquire(blocking, timeout)
        if self._re and self._owner == cur.tid:
            self._depth += 1
            return True
        if self._owner is not None:
            if not blocking:
                return False
            sim.block(lambda: self._owner is None)
        self._owner = cur.tid
        self._depth = 1
        return True

    def release(self):
        sim = CURRENT
        cur = sim.current() if sim is not None else None
        if cur is None:
            return self._real.release()
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        self._depth -= 1
        if self._depth == 0:
            self._owner = None

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


LIB_DIR = None          # set by install()


def _from_library(depth=2):
    try:
        fn = sys._getframe(depth).f_code.co_filename
    except ValueError:
        return False
    return LIB_DIR is not None and fn.startswith(LIB_DIR)


def pre_import(lib_dir):
    """Install the seams that must exist before the library is imported."""
    global LIB_DIR
    LIB_DIR = lib_dir
    _REAL["Lock"] = threading.Lock
    _REAL["RLock"] = threading.RLock

    def lock():
        return SimLock() if _from_library() else _REAL["Lock"]()

    def rlock():
        return SimLock(True) if _from_library() else _REAL["RLock"]()
    threading.Lock = lock
    threading.RLock = rlock


class _ShuffledScan:
    def __init__(self, real, sim):
        with real as it:
            self._entries = sorted(it, key=lambda e: e.name)
        _order(sim, self._entries)
        self._it = iter(self._entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


def _order(sim, entries):
    mode = sim.cfg.get("listing", "sorted")
    if mode == "reversed":
        entries.reverse()
    elif mode == "shuffled":
        random.Random("list:%s" % sim.cfg.get("seed", 0)).shuffle(entries)


def post_import():
    """Install the remaining seams once the library modules are loaded."""
    import joblib
    import joblib.parallel
    import concurrent.futures as cf
    import multiprocessing as mp
    import multiprocessing.context as mpc
    import timeit
    import numpy as np

    # just-in-time compilation executes pieces of the library's code under the
    # compiler's own lock: one atomic step of the task that triggers it
    from numba.core.dispatcher import Dispatcher
    real_compile = Dispatcher.compile

    def compile_atomic(self, sig):
        with nopreempt():
            return real_compile(self, sig)
    Dispatcher.compile = compile_atomic

    _REAL["Parallel"] = joblib.Parallel
    real_par = joblib.Parallel
    joblib.Parallel = SimParallel
    joblib.parallel.Parallel = SimParallel
    for name, mod in list(sys.modules.items()):
        if mod is None or not name.startswith("algotom"):
            continue
        for k, v in list(vars(mod).items()):
            if v is real_par:
                setattr(mod, k, SimParallel)
    for cname, simcls in (("ThreadPoolExecutor", SimExecutor),
                          ("ProcessPoolExecutor", SimProcExecutor)):
        real = getattr(cf, cname)
        fac = _executor_factory(real, simcls)
        setattr(cf, cname, fac)
        for name, mod in list(sys.modules.items()):
            if mod is None or not name.startswith("algotom"):
                continue
            for k, v in list(vars(mod).items()):
                if v is real:
                    setattr(mod, k, fac)
    real_as = cf.as_completed

    def as_completed(fs, timeout=None):
        fs = list(fs)
        if fs and isinstance(fs[0], SimFuture):
            pend = list(fs)
            sim = fs[0]._sim
            end = None if timeout is None else sim.now + timeout

            def gen():
                while pend:
                    if end is None:
                        sim.block(lambda: any(f._done for f in pend))
                    else:
                        sim.block(lambda: any(f._done for f in pend)
                                  or sim.now >= end, wake=end)
                        if not any(f._done for f in pend):
                            raise TimeoutError()
                    for f in list(pend):
                        if f._done:
                            pend.remove(f)
                            yield f
            return gen()
        return real_as(fs, timeout)
    cf.as_completed = as_completed
    real_wait = cf.wait

    def wait(fs, timeout=None, return_when=cf.ALL_COMPLETED):
        fs = set(fs)
        if not fs or not isinstance(next(iter(fs)), SimFuture):
            return real_wait(fs, timeout, return_when)
        sim = next(iter(fs))._sim
        end = None if timeout is None else sim.now + timeout

        def enough():
            if end is not None and sim.now >= end:
                return True
            if return_when == cf.FIRST_COMPLETED:
                return any(f._done for f in fs)
            if return_when == cf.FIRST_EXCEPTION and any(
                    f._done and f._err is not None for f in fs):
                return True
            return all(f._done for f in fs)
        if not enough():
            if end is None:
                sim.block(enough)
            else:
                sim.block(enough, wake=end)
        done = {f for f in fs if f._done}
        return cf._base.DoneAndNotDoneFutures(done, fs - done)
    cf.wait = wait

    # --- number of CPUs
    real_cpu = os.cpu_count

    def cpu_count(*a, **k):
        if CURRENT is not None and CURRENT.ncpu is not None:
            CURRENT.count("cpu_count_reads")
            return CURRENT.ncpu
        return real_cpu()
    os.cpu_count = cpu_count
    if hasattr(os, "process_cpu_count"):
        os.process_cpu_count = cpu_count
    mp.cpu_count = cpu_count
    joblib.cpu_count = cpu_count
    real_aff = os.sched_getaffinity

    def affinity(pid):
        if CURRENT is not None and CURRENT.ncpu is not None:
            return set(range(CURRENT.ncpu))
        return real_aff(pid)
    os.sched_getaffinity = affinity
    for name, mod in list(sys.modules.items()):
        if mod is not None and name.startswith("algotom"):
            for k, v in list(vars(mod).items()):
                if v is real_cpu or (
                        isinstance(v, types.MethodType)
                        and isinstance(v.__self__, mpc.BaseContext)
                        and v.__name__ == "cpu_count"):
                    setattr(mod, k, cpu_count)

    # --- clocks
    real_t = {"time": _time.time, "monotonic": _time.monotonic,
              "perf_counter": _time.perf_counter,
              "default_timer": timeit.default_timer, "sleep": _time.sleep}

    def make_clock(real):
        def clock():
            s = CURRENT
            if s is None or s.current() is None:
                return real()
            s.count("clock_reads")
            m = s.clock_mode
            n = s.stats["clock_reads"]
            if m == "frozen":
                return s.now
            if m == "backward":
                s.now -= 3.0
            elif m == "jumps":
                s.now += (86400.0 * 400, -86400.0 * 399, 0.0, 1e-9)[n % 4]
            elif m == "epoch0":
                s.now = 0.0
            else:
                s.now += 0.001
            return s.now
        return clock
    _time.time = make_clock(real_t["time"])
    _time.monotonic = make_clock(real_t["monotonic"])
    _time.perf_counter = make_clock(real_t["perf_counter"])
    timeit.default_timer = make_clock(real_t["default_timer"])
    for n in ("time_ns", "monotonic_ns", "perf_counter_ns", "process_time",
              "thread_time", "process_time_ns", "thread_time_ns"):
        real_t[n] = getattr(_time, n)

    def make_ns(real):
        tick = make_clock(real)

        def clock():
            s = CURRENT
            if s is None or s.current() is None:
                return real()
            return int(tick() * 1e9)
        return clock
    for n in list(real_t):
        if n.endswith("_ns"):
            setattr(_time, n, make_ns(real_t[n]))
        elif n.endswith("_time"):
            setattr(_time, n, make_clock(real_t[n]))

    def sleep(dt):
        s = CURRENT
        if s is None or s.current() is None:
            return real_t["sleep"](dt)
        s.sleep(dt)
    _time.sleep = sleep
    _REAL.update(real_t)
    for name, mod in list(sys.modules.items()):
        if mod is not None and name.startswith("algotom"):
            for k, v in list(vars(mod).items()):
                for n, real in real_t.items():
                    if v is real:       # "from time import ..."
                        setattr(mod, k, timeit.default_timer if
                                n == "default_timer" else getattr(_time, n))

    # --- directory listing order
    real_list, real_scan = os.listdir, os.scandir

    def listdir(path="."):
        out = real_list(path)
        s = CURRENT
        if s is not None and s.current() is not None:
            out = sorted(out)
            _order(s, out)
            s.count("listings")
        return out

    def scandir(path="."):
        r = real_scan(path)
        s = CURRENT
        if s is not None and s.current() is not None:
            s.count("listings")
            return _ShuffledScan(r, s)
        return r
    os.listdir = listdir
    os.scandir = scandir
    _REAL["listdir"], _REAL["scandir"] = real_list, real_scan
    np.random.seed(0)
