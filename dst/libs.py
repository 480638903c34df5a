"""Stand-ins for the native reconstruction libraries the package wraps.

Tomopy and the Astra toolbox are not installed here.  These modules have the
part of their interface the package uses, keep the objects a caller creates
until they are deleted, as the native libraries do, and refuse what those
refuse.  Every call is a scheduling point and may fail on request."""
import contextlib
import sys
import types

import numpy as np

from dst import sim as S

FILTERS = ("none", "shepp", "cosine", "hann", "hamming", "ramlak", "ram-lak",
           "shepp-logan", "parzen", "butterworth", "blackman")
CPU = ("BP", "FBP", "SIRT", "SART", "ART", "CGLS")
CUDA = ("BP_CUDA", "FBP_CUDA", "SIRT_CUDA", "SART_CUDA", "CGLS_CUDA",
        "EM_CUDA")
ITERATIVE = ("SIRT", "SART", "ART", "CGLS", "EM")


def gridrec_image(sino, theta, center, filter_name, filter_par):
    """What the stand-in of gridrec makes of one sinogram."""
    sino = np.float64(np.float32(sino))
    w = 1.0 + FILTERS.index(filter_name) * 0.125
    if filter_par is not None:
        w = w + float(np.sum(np.float64(filter_par))) * 0.25
    return np.float32(w * _smear(sino, np.float64(theta), float(center)))


def astra_image(sino, angles, method, filter_name, iters):
    """What the stand-in of Astra makes of one sinogram (centred)."""
    sino = np.float64(np.float32(sino))
    kind = method.replace("_CUDA", "")
    w = 1.0 + (CPU + ("EM",)).index(kind) * 0.25
    if kind == "FBP":
        w = w + FILTERS.index(filter_name) * 0.125
    if kind in ITERATIVE:
        w = w * (1.0 + 0.5 * iters)
    return np.float32(w * _smear(sino, np.float64(angles),
                                 (sino.shape[1] - 1) / 2.0))


def _smear(sino, theta, center):
    n = sino.shape[1]
    x = np.arange(n) - (n - 1) / 2.0
    out = np.zeros((n, n))
    pos = np.arange(n)
    for k in range(sino.shape[0]):
        f = x[None, :] * np.cos(theta[k]) - x[:, None] * np.sin(theta[k])
        out += np.interp(f + center, pos, sino[k]) * (1.0 + 0.01 * k)
    return out


class NativeError(Exception):
    pass


class Native:
    """State of the libraries: live objects, calls, faults."""

    def __init__(self, faults=()):
        self.live = {}
        self.next = 1
        self.calls = {}
        self.faults = [dict(f) for f in faults]
        self.fired = []
        self.misuse = []

    def point(self):
        if S.CURRENT is not None:
            S.CURRENT.yield_point()

    def enter(self, name):
        self.point()
        n = self.calls[name] = self.calls.get(name, 0) + 1
        for f in self.faults:
            if f["call"] == name and f["nth"] == n:
                self.fired.append(name)
                exc = {"MemoryError": MemoryError, "Native": NativeError,
                       "Runtime": RuntimeError}[f["exc"]]
                raise exc("%s: injected failure of call %d" % (name, n))

    def new(self, kind, obj):
        k = self.next
        self.next += 1
        self.live[k] = (kind, obj)
        return k

    def get(self, kind, k):
        hit = self.live.get(int(k))
        if hit is None or hit[0] != kind:
            self.misuse.append("%s %s is used but does not exist" % (kind, k))
            raise NativeError("no %s with id %s" % (kind, k))
        return hit[1]

    def delete(self, kind, ids):
        self.point()
        ids = ids if isinstance(ids, (list, tuple)) else [ids]
        for k in ids:
            if int(k) in self.live and self.live[int(k)][0] != kind:
                self.misuse.append("%s deleted as %s" % (
                    self.live[int(k)][0], kind))
            else:               # unknown ids are ignored, as there
                self.live.pop(int(k), None)


def astra_module(nat):
    m = types.ModuleType("astra")

    def create_proj_geom(kind, width, ncol, angles):
        if kind != "parallel":
            raise NativeError("unsupported geometry " + str(kind))
        return {"type": kind, "DetectorWidth": float(width),
                "DetectorCount": int(ncol), "ProjectionAngles":
                np.array(angles, dtype=np.float64)}

    def create_vol_geom(rows, cols):
        return {"GridRowCount": int(rows), "GridColCount": int(cols)}

    def create(kind, geom, data=None):
        nat.enter("data2d.create")
        shape = (len(geom["ProjectionAngles"]), geom["DetectorCount"]) if \
            kind == "-sino" else (geom["GridRowCount"], geom["GridColCount"])
        if data is None:
            data = np.zeros(shape, np.float32)
        elif np.ndim(data) == 0:
            data = np.full(shape, data, np.float32)
        elif np.shape(data) != shape:
            raise ValueError("The dimensions of the data do not match those "
                             "specified in the geometry: %s != %s" % (
                                 np.shape(data), shape))
        return nat.new("data2d", {"kind": kind, "geom": geom,
                                  "data": np.array(data, np.float32)})

    def get(k):
        nat.enter("data2d.get")
        return nat.get("data2d", k)["data"].copy()

    def create_projector(kind, pgeom, vgeom):
        nat.enter("create_projector")
        if kind not in ("line", "strip", "linear"):
            raise NativeError("unknown projector " + str(kind))
        return nat.new("projector", {"p": pgeom, "v": vgeom})

    def astra_dict(method):
        return {"type": method}

    def alg_create(cfg):
        nat.enter("algorithm.create")
        kind = cfg["type"]
        if kind not in CPU + CUDA:
            raise NativeError("unable to create algorithm " + str(kind))
        nat.get("data2d", cfg["ProjectionDataId"])
        nat.get("data2d", cfg["ReconstructionDataId"])
        if kind in CPU:
            nat.get("projector", cfg["ProjectorId"])
        if "FBP" in kind and cfg.get("FilterType", "ram-lak") not in FILTERS:
            raise NativeError("unknown filter")
        return nat.new("algorithm", dict(cfg))

    def alg_run(k, iterations=1):
        nat.enter("algorithm.run")
        cfg = nat.get("algorithm", k)
        for _ in range(3):              # long calls let other threads run
            nat.point()
        if cfg["type"] in CPU:
            nat.get("projector", cfg["ProjectorId"])
        src = nat.get("data2d", cfg["ProjectionDataId"])
        dst = nat.get("data2d", cfg["ReconstructionDataId"])
        dst["data"] = astra_image(
            src["data"], src["geom"]["ProjectionAngles"], cfg["type"],
            cfg.get("FilterType", "ram-lak"), iterations)

    m.create_proj_geom, m.create_vol_geom = create_proj_geom, create_vol_geom
    m.create_projector, m.astra_dict = create_projector, astra_dict
    m.data2d = types.SimpleNamespace(
        create=create, get=get, clear=lambda: None,
        delete=lambda k: nat.delete("data2d", k))
    m.projector = types.SimpleNamespace(
        create=lambda cfg: create_projector(cfg["type"], cfg, cfg),
        delete=lambda k: nat.delete("projector", k))
    m.algorithm = types.SimpleNamespace(
        create=alg_create, run=alg_run,
        delete=lambda k: nat.delete("algorithm", k))
    return m


def tomopy_module(nat):
    m = types.ModuleType("tomopy")

    def recon(tomo, theta, center=None, sinogram_order=False, algorithm=None,
              init_recon=None, ncore=None, nchunk=None, filter_name="shepp",
              filter_par=None, **kwargs):
        nat.enter("recon")
        tomo = np.asarray(tomo)
        if tomo.ndim != 3:
            raise ValueError("tomo has to be 3D")
        if not sinogram_order:
            tomo = np.swapaxes(tomo, 0, 1)
        if len(theta) != tomo.shape[1]:
            raise ValueError("number of angles")
        if algorithm != "gridrec" or filter_name not in FILTERS or kwargs:
            raise ValueError("unknown algorithm, filter or parameter")
        if ncore is not None and ncore < 1:
            raise ValueError("ncore")
        center = np.broadcast_to(np.float64(
            tomo.shape[2] / 2.0 if center is None else center),
            (len(tomo),))
        nat.point()
        return np.stack([gridrec_image(s, theta, c, filter_name, filter_par)
                         for s, c in zip(tomo, center)])
    m.recon = recon
    return m


@contextlib.contextmanager
def installed(nat, absent=False):
    """tomopy and astra in sys.modules, or shown as not installed."""
    mods = {"tomopy": None if absent else tomopy_module(nat),
            "astra": None if absent else astra_module(nat)}
    keep = {k: sys.modules.get(k) for k in mods}
    sys.modules.update(mods)
    try:
        yield nat
    finally:
        for k, v in keep.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
