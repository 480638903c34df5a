"""
Simulation of numba's parallel kernels (prange).

The compiled kernels run real threads that no scheduler of ours controls.
Here the Python source of the same kernel is run instead: every outermost
prange loop becomes a region whose iterations are dealt to simulated threads
(tasks of dst.sim), as numba deals them: consecutive blocks of iterations,
private copies of the scalars assigned in the loop, private copies and a final
merge for reductions (`x += ...` on a variable of the enclosing function), and
shared arrays. Every element access of a shared array is a point where the
seeded scheduler may switch threads, so `a[i] += v` is the read-modify-write
it is on the machine.
"""
import ast
import inspect
import random
import sys
import textwrap
import types

import numpy as np

UNBOUND = object()


# ------------------------------------------------------------- shared arrays
class Shared(np.lib.mixins.NDArrayOperatorsMixin):
    """A shared array: every access is a scheduling point."""
    __slots__ = ("a", "sim")

    def __init__(self, a, sim):
        self.a = a
        self.sim = sim

    def __getitem__(self, k):
        self.sim.yield_point()
        v = self.a[unwrap(k)]
        if isinstance(v, np.ndarray):
            return Shared(v, self.sim)
        return v.item() if isinstance(v, np.generic) else v

    def __setitem__(self, k, v):
        v = unwrap(v)
        self.sim.yield_point()
        self.a[unwrap(k)] = v

    def __len__(self):
        return len(self.a)

    def __iter__(self):
        for k in range(len(self.a)):
            yield self[k]

    def __array__(self, dtype=None, copy=None):
        self.sim.yield_point()
        return np.array(self.a, dtype=dtype)

    def __array_ufunc__(self, ufunc, method, *ins, out=None, **kw):
        self.sim.yield_point()
        ins = [np.array(x.a) if isinstance(x, Shared) else x for x in ins]
        res = getattr(ufunc, method)(*ins, **kw)
        if out is not None:
            self.sim.yield_point()
            o = out[0]
            (o.a if isinstance(o, Shared) else o)[...] = res
            return o
        return res

    def __array_function__(self, func, types_, args, kwargs):
        self.sim.yield_point()
        return func(*unwrap(args), **unwrap(kwargs))

    def __getattr__(self, name):
        if name in ("shape", "ndim", "dtype", "size", "strides", "nbytes"):
            return getattr(self.a, name)
        if name == "T":
            return Shared(self.a.T, self.sim)
        v = getattr(self.a, name)
        if callable(v):
            def method(*args, **kw):
                self.sim.yield_point()
                return v(*unwrap(args), **unwrap(kw))
            return method
        return v


def unwrap(o):
    if isinstance(o, Shared):
        return o.a
    if type(o) in (tuple, list):
        return type(o)(unwrap(x) for x in o)
    if type(o) is dict:
        return {k: unwrap(v) for k, v in o.items()}
    return o


# ------------------------------------------------------------ source rewriting
class _Names(ast.NodeVisitor):
    def __init__(self):
        self.load, self.store, self.red, self.calls = set(), set(), {}, set()
        self.order = []

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load):
            self.load.add(n.id)
        else:
            self.store.add(n.id)

    def visit_AugAssign(self, n):
        if isinstance(n.target, ast.Name):
            self.red.setdefault(n.target.id, type(n.op).__name__)
        self.generic_visit(n)


def _first_is_read(body, name):
    """True if `name` may be read in the loop body before it is assigned by
    a plain assignment (a reduction), judged by order of appearance."""
    for node in body:
        for sub in ast.walk(node):
            if isinstance(sub, ast.Assign):
                for t in sub.targets:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name) and x.id == name:
                            return False
            if isinstance(sub, (ast.For,)):
                for x in ast.walk(sub.target):
                    if isinstance(x, ast.Name) and x.id == name:
                        return False
    return True


def _is_prange(node, glob):
    if not (isinstance(node, ast.For) and isinstance(node.iter, ast.Call)):
        return False
    f = node.iter.func
    if isinstance(f, ast.Attribute):
        return f.attr == "prange"
    if isinstance(f, ast.Name):
        import numba
        return f.id == "prange" or glob.get(f.id) is numba.prange
    return False


class _Rewrite(ast.NodeTransformer):
    def __init__(self, glob, local_names):
        self.glob = glob
        self.locals = local_names
        self.n = 0

    def visit_For(self, node):
        if not _is_prange(node, self.glob):
            self.generic_visit(node)
            return node
        names = _Names()
        for b in node.body:
            names.visit(b)
        names.visit(node.target)
        red = {k: op for k, op in names.red.items()
               if _first_is_read(node.body, k)}
        stored = sorted((names.store | set(red)) & self.locals)
        params = sorted(((names.load | names.store) & self.locals))
        self.n += 1
        fname = "_region_%d" % self.n
        ret = ast.Return(ast.Dict(
            [ast.Constant(s) for s in stored],
            [ast.Name(s, ast.Load()) for s in stored]))
        # names never bound in a thread must not fail at the return
        safe = ast.parse(
            "return {k: v for k, v in locals().items() if k in %r}"
            % (tuple(stored),)).body[0]
        del ret
        unb = [ast.parse("if %s is _unbound_: del %s" % (p, p)).body[0]
               for p in params]
        fn = ast.FunctionDef(
            name=fname, args=ast.arguments(
                posonlyargs=[], args=[ast.arg("_it_")] + [
                    ast.arg(p) for p in params], kwonlyargs=[],
                kw_defaults=[], defaults=[]),
            body=unb + [ast.For(node.target, ast.Name("_it_", ast.Load()),
                                node.body, [], None), safe],
            decorator_list=[], returns=None, type_params=[])
        fn.body[-2].type_comment = None
        out = [fn]
        call = ast.parse(
            "_res_ = _run_region_(%s, range(0), {k: v for k, v in "
            "locals().items() if k in %r}, %r, %r)" % (
                fname, tuple(params), tuple(params), red)).body[0]
        call.value.args[1] = ast.Call(ast.Name("range", ast.Load()),
                                      node.iter.args, [])
        out.append(call)
        for s in stored:
            out.extend(ast.parse(
                "if %r in _res_: %s = _res_[%r]" % (s, s, s)).body)
        return out


def rewritten(disp, run_region, cache):
    """A Python function equal to the kernel `disp`, its prange loops run by
    run_region()."""
    if disp in cache:
        return cache[disp]
    from numba.core.dispatcher import Dispatcher
    py = disp.py_func
    glob = dict(py.__globals__)
    par = bool(disp.targetoptions.get("parallel"))
    src = textwrap.dedent(inspect.getsource(py))
    tree = ast.parse(src)
    fd = tree.body[0]
    fd.decorator_list = []
    names = _Names()
    names.visit(fd)
    loc = names.store | {a.arg for a in fd.args.args + fd.args.kwonlyargs
                         + fd.args.posonlyargs}
    if par:
        _Rewrite(glob, loc).visit(fd)
    ast.fix_missing_locations(tree)
    glob["_run_region_"] = run_region
    glob["_unbound_"] = UNBOUND
    glob["prange"] = range
    free = {}
    if py.__closure__:
        free = dict(zip(py.__code__.co_freevars,
                        [c.cell_contents for c in py.__closure__]))
        glob.update(free)
    cell = {}
    cache[disp] = lambda *a, **k: cell["f"](*a, **k)
    for k, v in list(glob.items()):
        if isinstance(v, Dispatcher) and v is not disp:
            glob[k] = rewritten(v, run_region, cache)
    # the kernel may be called recursively or by its own name
    glob[fd.name] = cache[disp]
    ns = {}
    code = compile(tree, "<simulated kernel %s>" % py.__name__, "exec")
    exec(code, glob, ns)
    f = ns[fd.name]
    f = types.FunctionType(f.__code__, glob, f.__name__, py.__defaults__,
                           f.__closure__)
    f.__kwdefaults__ = py.__kwdefaults__
    cell["f"] = f
    return cache[disp]


_ID = {"Add": 0, "Sub": 0, "Mult": 1, "Div": 1}


def _identity(op, v):
    e = _ID.get(op, 0)
    if isinstance(v, np.ndarray):
        return np.full_like(v, e)
    return type(v)(e) if isinstance(v, (int, float)) else e


def _merge(op, init, parts):
    out = np.copy(init) if isinstance(init, np.ndarray) else init
    for p in parts:
        if op in ("Mult", "Div"):
            out = out * p
        else:
            out = out + p
    if isinstance(init, np.ndarray):
        init[...] = out
        return init
    return out


class Regions:
    """Runs prange regions under the simulator `sim`."""

    def __init__(self, sim, seed, max_threads=4):
        self.sim = sim
        self.rng = random.Random("regions:%s" % seed)
        self.max_threads = max_threads
        self.regions = 0
        self.threads = 0
        self.cache = {}

    def run(self, body, its, env, params, red):
        its = list(its)
        sim, rng = self.sim, self.rng
        self.regions += 1
        nt = max(1, min(len(its), rng.randrange(1, self.max_threads + 1)))
        self.threads = max(self.threads, nt)
        cuts = sorted(rng.sample(range(1, len(its)), nt - 1)) if nt > 1 \
            else []
        blocks = [its[a:b] for a, b in zip([0] + cuts, cuts + [len(its)])]
        parent = sim.current()
        tasks = []
        for blk in blocks:
            args = []
            for p in params:
                v = env.get(p, UNBOUND)
                v = unwrap(v)
                if p in red and v is not UNBOUND:
                    v = _identity(red[p], v)
                elif isinstance(v, np.ndarray):
                    v = Shared(v, sim)
                args.append(v)
            tasks.append(sim.spawn("prange-%d" % self.regions,
                                   lambda blk=blk, args=args: body(
                                       blk, *args)))
        if parent is None:
            raise RuntimeError("kernel region outside the simulation")
        sim.join(tasks)
        for t in tasks:
            if t.error is not None:
                raise t.error
        res = {}
        order = list(range(len(tasks)))
        last = order[-1] if order else None
        if last is not None:
            res = {k: unwrap(v) for k, v in tasks[last].result.items()
                   if v is not UNBOUND}
        for k, op in red.items():
            if k in env:
                res[k] = _merge(op, unwrap(env[k]), [
                    unwrap(t.result[k]) for t in tasks])
        return res


def parallel_kernels():
    """[(module, name, dispatcher)] of the library's parallel kernels."""
    from numba.core.dispatcher import Dispatcher
    out = []
    for m in list(sys.modules.values()):
        if getattr(m, "__name__", "").split(".")[0] != "algotom":
            continue
        for k, v in list(vars(m).items()):
            if isinstance(v, Dispatcher) and v.targetoptions.get("parallel"):
                out.append((m, k, v))
    return out


class simulated:
    """Context: the library's parallel kernels run as simulated threads."""

    def __init__(self, sim, seed, max_threads=4):
        self.regions = Regions(sim, seed, max_threads)

    def __enter__(self):
        self.saved = parallel_kernels()
        for m, k, v in self.saved:
            setattr(m, k, rewritten(v, self.regions.run,
                                    self.regions.cache))
        return self.regions

    def __exit__(self, *a):
        for m, k, v in self.saved:
            setattr(m, k, v)
