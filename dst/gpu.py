"""
Simulated CUDA device.

There is no GPU here, and on a real one nobody controls the order in which the
CUDA threads run. The device is therefore simulated: the Python source of the
library's `cuda.jit` kernels is run by simulated CUDA threads whose order
(blocks, threads in a block) and interleaving come from the seed.

* "compiled": the source of each kernel is compiled for the CPU with the
  position of the CUDA thread as an argument, with bounds checking (an access
  outside an array is an error here; on a device it is silent corruption) and
  C division. The threads of a launch run one after the other in seeded order.
* "interleaved": the source runs in the interpreter; several CUDA threads are
  resident at once and the scheduler of dst.sim switches between them at every
  access to device memory.

A launch with host arrays copies them to the device and back, as numba does:
arrays must be contiguous, and blocks must be within the limits of a device.
The device can be absent, fail at the n-th launch, or run out of memory.
"""
import ast
import inspect
import os
import random
import sys
import textwrap
import types

import numpy as np

from dst.kernels import Shared

LIMIT = 1024                    # threads per block
DIMS = (1024, 1024, 64)


class DeviceError(RuntimeError):
    """What the driver raises (CudaAPIError, CudaSupportError)."""


# ---------------------------------------------------------------- the sources
def cuda_module():
    from numba import cuda
    return cuda


def key_of(disp):
    f = disp.py_func
    return "%s.%s:%d" % (f.__module__, f.__qualname__,
                         f.__code__.co_firstlineno)


def kernels():
    """{key: dispatcher} of the CUDA functions in the library's modules."""
    from numba.cuda.dispatcher import CUDADispatcher
    out = {}
    for m in list(sys.modules.values()):
        if getattr(m, "__name__", "").split(".")[0] != "algotom":
            continue
        for v in list(vars(m).values()):
            for d in v.values() if type(v) is dict else \
                    v if type(v) in (list, tuple) else (v,):
                if isinstance(d, CUDADispatcher):
                    out.setdefault(key_of(d), d)
    return out


class _Unsupported(Exception):
    pass


class _Rewrite(ast.NodeTransformer):
    """cuda.grid(...) and the like become reads of the tuple _pos_."""
    FIELDS = {"threadIdx": 3, "blockIdx": 6, "blockDim": 9, "gridDim": 12}

    def __init__(self, glob, placed):
        self.glob = glob
        self.placed = placed    # does this dispatcher want _pos_?
        self.uses = False

    def value(self, node):
        if isinstance(node, ast.Name):
            return self.glob.get(node.id)
        if isinstance(node, ast.Attribute):
            v = self.value(node.value)
            if isinstance(v, types.ModuleType):
                return getattr(v, node.attr, None)
        return None

    def is_cuda(self, node):
        return self.value(node) is cuda_module()

    def pos(self, k):
        self.uses = True
        return ast.parse("_pos_[%d]" % k, mode="eval").body

    def visit_Call(self, node):
        f = node.func
        name = None
        if isinstance(f, ast.Attribute) and self.is_cuda(f.value):
            name = f.attr
        elif isinstance(f, ast.Name):
            for n in ("grid", "gridsize"):
                if self.glob.get(f.id) is getattr(cuda_module(), n):
                    name = n
        if name in ("grid", "gridsize"):
            n = ast.literal_eval(node.args[0])
            if name == "grid":
                parts = [self.pos(k) for k in range(n)]
            else:
                parts = [ast.BinOp(self.pos(9 + k), ast.Mult(),
                                   self.pos(12 + k)) for k in range(n)]
            return parts[0] if n == 1 else ast.Tuple(parts, ast.Load())
        if name is not None:
            raise _Unsupported("cuda." + name)
        self.generic_visit(node)
        if self.placed(self.value(f)):
            self.uses = True
            node.args.insert(0, ast.Name("_pos_", ast.Load()))
        return node

    def visit_Attribute(self, node):
        if node.attr in ("x", "y", "z"):
            v = node.value
            name = v.attr if isinstance(v, ast.Attribute) and \
                self.is_cuda(v.value) else None
            if isinstance(v, ast.Name):
                for n in self.FIELDS:
                    if self.glob.get(v.id) is getattr(cuda_module(), n):
                        name = n
            if name in self.FIELDS:
                return self.pos(self.FIELDS[name] + "xyz".index(node.attr))
        self.generic_visit(node)
        return node


class Sources:
    """CUDA functions rewritten to plain ones, on demand."""

    def __init__(self, how):
        self.how = how
        self.made = {}          # id of dispatcher: (function, wants _pos_)
        self.keep = []
        self.busy = set()

    def decorate(self, f):
        if self.how != "compiled":
            return f
        import numba
        return numba.njit(boundscheck=True, error_model="numpy",
                          cache="DST_SCRATCH" in os.environ)(f)

    def get(self, disp):
        """(function, does it take the position as first argument)."""
        if id(disp) not in self.made:
            if id(disp) in self.busy:
                raise _Unsupported("recursion")
            self.busy.add(id(disp))
            self.made[id(disp)] = self.make(disp)
            self.busy.discard(id(disp))
            self.keep.append(disp)
        return self.made[id(disp)]

    def make(self, disp):
        from numba.cuda.dispatcher import CUDADispatcher
        py = disp.py_func
        glob = dict(py.__globals__)
        if py.__closure__:
            glob.update(zip(py.__code__.co_freevars,
                            [c.cell_contents for c in py.__closure__]))
        tree = ast.parse(textwrap.dedent(inspect.getsource(py)))
        fd = tree.body[0]
        fd.decorator_list = []
        args = [a.arg for a in fd.args.args]
        free = {n.id for n in ast.walk(fd) if isinstance(n, ast.Name)}
        for n in free - set(args):
            if isinstance(glob.get(n), CUDADispatcher):
                self.get(glob[n])

        def placed(v):
            return isinstance(v, CUDADispatcher) and self.get(v)[1]
        rw = _Rewrite(glob, placed)
        fd.body = [rw.visit(x) for x in fd.body]
        kernel = not disp.targetoptions.get("device")
        uses = rw.uses or kernel
        if uses:
            fd.args.args.insert(0, ast.arg("_pos_"))
        ast.fix_missing_locations(tree)
        for n in free:          # other modules' functions too
            v = glob.get(n)
            if isinstance(v, CUDADispatcher):
                glob[n] = self.get(v)[0]
        ns = {}
        src = ast.unparse(ast.Module([fd], []))
        exec(compile(src, self.place(disp, src), "exec"), glob, ns)
        f = ns[fd.name]
        f = types.FunctionType(f.__code__, glob, fd.name, f.__defaults__)
        return self.decorate(f), uses

    @staticmethod
    def place(disp, src):
        """A file with the source, so that numba can cache the result."""
        top = os.environ.get("DST_SCRATCH")
        if not top:
            return "<cuda kernel %s>" % disp.py_func.__name__
        p = os.path.join(top, "cuda_%s.py" % "".join(
            c if c.isalnum() else "_" for c in key_of(disp)))
        if not os.path.exists(p):
            tmp = "%s.%d" % (p, os.getpid())
            with open(tmp, "w") as f:
                f.write(src)
            os.replace(tmp, p)
        return p


_built = {}


def built(how):
    if how not in _built:
        _built[how] = Sources(how)
    return _built[how]


def compiled(everything=False):
    """[(key, function)] of the kernels compiled for the CPU."""
    src = built("compiled")
    if everything:
        for d in kernels().values():
            try:
                src.get(d)
            except _Unsupported:
                pass
    return [(key_of(d), src.made[id(d)][0]) for d in src.keep]


# ------------------------------------------------------------------ the device
class DeviceArray:
    """cuda.to_device() and friends."""
    __cuda_ndarray__ = True

    def __init__(self, a):
        self.a = a

    def copy_to_host(self, ary=None, stream=0):
        if ary is None:
            return self.a.copy()
        ary[...] = self.a
        return ary

    def copy_to_device(self, ary, stream=0):
        self.a[...] = ary.a if isinstance(ary, DeviceArray) else ary

    def __getattr__(self, name):
        return getattr(self.a, name)

    def __getitem__(self, k):
        v = self.a[k]
        return DeviceArray(v) if isinstance(v, np.ndarray) else v

    def __setitem__(self, k, v):
        self.a[k] = v.a if isinstance(v, DeviceArray) else v

    def __len__(self):
        return len(self.a)


class Device:
    """One simulated GPU."""

    def __init__(self, sim, spec):
        # spec: mode, seed, order, absent, fail (n-th launch), resident
        self.sim = sim
        self.spec = spec
        self.rng = random.Random("device:%s" % spec["seed"])
        self.launches = 0
        self.threads = 0
        self.active = 0
        self.failed = 0
        self.changed = []

    def fail(self, what):
        self.failed += 1
        raise DeviceError(what)

    def launch(self, disp, grid, block, args):
        self.launches += 1
        if self.spec["absent"]:
            self.fail("no CUDA-capable device is detected")
        grid, block = norm(grid), norm(block)
        if min(grid + block) < 1 or np.prod(block) > LIMIT or \
                any(b > m for b, m in zip(block, DIMS)):
            raise DeviceError("[1] Call to cuLaunchKernel results in "
                              "CUDA_ERROR_INVALID_VALUE: grid %s, block %s"
                              % (grid, block))
        if self.spec.get("fail") == self.launches:
            self.fail(self.spec.get("error") or
                      "[2] Call to cuMemAlloc results in "
                      "CUDA_ERROR_OUT_OF_MEMORY")
        host, dev = [], []
        for a in args:
            if isinstance(a, DeviceArray):
                dev.append(a.a)
            elif isinstance(a, np.ndarray) and a.ndim > 0:
                if not (a.flags.c_contiguous or a.flags.f_contiguous):
                    raise ValueError(
                        "Array contains non-contiguous buffer and cannot be "
                        "transferred as a single memory region. Please ensure"
                        " contiguous buffer with numpy .ascontiguousarray()")
                if a.dtype.kind not in "biufc":
                    raise TypeError("unsupported type %s" % a.dtype)
                d = np.array(a, order="K", copy=True)
                host.append((a, d))
                dev.append(d)
            elif isinstance(a, np.ndarray):
                dev.append(a[()])
            else:
                dev.append(a)
        if not isinstance(self.spec["mode"], str):
            raise RuntimeError("mode")
        pos = self.order(grid, block)
        self.threads += len(pos)
        if self.spec["mode"] == "compiled":
            self.run_compiled(disp, dev, pos, grid, block)
        else:
            self.run_interleaved(disp, dev, pos, grid, block)
        for a, d in host:
            if a.flags.writeable:
                a[...] = d
            elif not np.array_equal(a, d, equal_nan=True):
                raise ValueError("cannot write back to a read-only array")

    def order(self, grid, block):
        """Positions of all CUDA threads in the order of this launch."""
        blocks = [(x, y, z) for z in range(grid[2]) for y in range(grid[1])
                  for x in range(grid[0])]
        threads = [(x, y, z) for z in range(block[2]) for y in range(block[1])
                   for x in range(block[0])]
        how = self.spec["order"]
        rng = self.rng
        if how == "all":            # no order between any two threads
            out = [(b, t) for b in blocks for t in threads]
            rng.shuffle(out)
            return out
        if how == "blocks":         # blocks in any order, threads too
            rng.shuffle(blocks)
            out = []
            for b in blocks:
                rng.shuffle(threads)
                out.extend((b, t) for t in threads)
            return out
        if how == "reverse":
            return [(b, t) for b in reversed(blocks)
                    for t in reversed(threads)]
        if how == "transposed":
            return [(b, t) for b in sorted(blocks) for t in sorted(threads)]
        return [(b, t) for b in blocks for t in threads]

    @staticmethod
    def place(b, t, grid, block):
        return (b[0] * block[0] + t[0], b[1] * block[1] + t[1],
                b[2] * block[2] + t[2]) + t + b + block + grid

    def run_compiled(self, disp, dev, pos, grid, block):
        f = built("compiled").get(disp)[0]
        for b, t in pos:
            f(self.place(b, t, grid, block), *dev)

    def run_interleaved(self, disp, dev, pos, grid, block):
        f = built("interleaved").get(disp)[0]
        sim = self.sim
        args = [Shared(a, sim) if isinstance(a, np.ndarray) else
                (a.item() if isinstance(a, np.generic) else a) for a in dev]
        n = max(1, min(self.spec["resident"], len(pos)))
        # threads are handed to the resident ones as these become free
        it = iter(pos)

        def worker():
            for b, t in it:
                with np.errstate(all="ignore"):
                    f(self.place(b, t, grid, block), *args)
        tasks = [sim.spawn("cuda-%d" % k, worker) for k in range(n)]
        sim.join(tasks)
        for t in tasks:
            if t.error is not None:
                raise t.error


def norm(d):
    if isinstance(d, (int, np.integer)):
        d = (d,)
    d = tuple(int(x) for x in d)
    if not 1 <= len(d) <= 3:
        raise ValueError("griddim must be a sequence of 1, 2 or 3 integers, "
                         "got %s" % (d,))
    return d + (1,) * (3 - len(d))


def launcher(device):
    """What kernel[grid, block] gives on this device."""
    def configured(disp, conf):
        if len(conf) not in (2, 3, 4):
            raise ValueError("must specify at least the griddim and blockdim")
        return lambda *args: device.launch(disp, conf[0], conf[1], args)
    return configured


class simulated:
    """Context: the library sees a CUDA device (or its absence)."""

    def __init__(self, sim, spec):
        self.device = Device(sim, spec)

    def __enter__(self):
        dev = self.device
        cuda = cuda_module()
        from numba.cuda.dispatcher import CUDADispatcher as disp
        self.saved = []

        def put(o, k, v):
            self.saved.append((o, k, getattr(o, k)))
            setattr(o, k, v)
        conf = launcher(dev)
        put(disp, "__getitem__", conf)
        put(disp, "configure", lambda d, *a: conf(d, a))
        put(disp, "forall", lambda d, n, tpb=0, stream=0, sharedmem=0: conf(
            d, (-(-n // (tpb or 128)), tpb or 128)))
        there = not dev.spec["absent"]
        put(cuda, "is_available", lambda: there)
        put(cuda, "to_device", lambda a, *x, **y: DeviceArray(
            np.array(a, order="K")))
        put(cuda, "device_array", lambda shape, dtype=np.float64, *x, **y:
            DeviceArray(np.full(shape, 171, dtype)))
        put(cuda, "device_array_like", lambda a, *x, **y: DeviceArray(
            np.full(a.shape, 171, a.dtype)))
        put(cuda, "synchronize", lambda *a: None)
        return dev

    def __exit__(self, *a):
        for o, k, v in reversed(self.saved):
            setattr(o, k, v)
