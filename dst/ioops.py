"""Catalogue of the operations that read or write files.

Each operation knows how to draw its parameters, write its input files, call
the library, and judge the in-memory result and the files on disk against a
plain-numpy reference.  Layout below the case directory `root`:

    in/    input files (written here, never to be changed by the library)
    keep/  unrelated files of the user
    out/   where the operation was told to put its output (also holds
           unrelated neighbours)
"""
import os
import re

import numpy as np
import scipy.ndimage as ndi

from dst.common import (Violation, data, expect_close, expect_equal, file_state,
                        same_array, diff_text)

WORDS = ["delta", "alpha", "kilo", "Zulu", "mike", "bravo", "echo", "x9",
         "foxtrot", "A1", "golf", "tango", "yankee", "B02", "oscar", "q",
         "whiskey", "indigo", "0007", "lima", "romeo", "sierra", "uu"]


# ---------------------------------------------------------------- writers
def names_for(p, n):
    """n file names, in the order their names sort."""
    st = p.get("names", "pad")
    r = np.random.RandomState(p["seed"] % (1 << 30))
    if st == "gap":
        out = ["img_%05d" % (5 + 3 * i) for i in range(n)]
    elif st == "num":
        out = ["p%d" % (7 + i) for i in range(n)]
    elif st == "words" and n <= 2 * len(WORDS):
        pool = [w + s for w in WORDS for s in ("", "_2")]
        out = [pool[i] for i in r.permutation(len(pool))[:n]]
    else:
        out = ["img_%05d" % i for i in range(n)]
    exts = {"tif": [".tif"], "tiff": [".tiff"],
            "mix": [".tif", ".tiff"]}[p.get("ext", "tif")]
    out = [b + exts[int(r.randint(len(exts)))] for b in out]
    return sorted(out)


def write_tif(path, mat):
    from PIL import Image
    Image.fromarray(np.ascontiguousarray(mat)).save(path)


def read_tif(path):
    from PIL import Image
    try:
        with Image.open(path) as im:
            im.load()
            return np.array(im)
    except Exception as e:
        raise Violation("bad-output", "cannot read image %s: %s: %s" % (
            os.path.basename(path), type(e).__name__, str(e)[:200]))


def write_tif_folder(folder, vol, p):
    os.makedirs(folder, exist_ok=True)
    names = names_for(p, len(vol))
    order = np.random.RandomState((p["seed"] + 5) % (1 << 30)).permutation(
        len(vol))
    for k in order:
        write_tif(os.path.join(folder, names[k]), vol[k])
    if p.get("decoys", True):
        with open(os.path.join(folder, "readme.txt"), "w") as f:
            f.write("notes\n")
        os.makedirs(os.path.join(folder, "sub"), exist_ok=True)
        write_tif(os.path.join(folder, "sub", "img_00000.tif"),
                  vol[0].astype(np.float32) * 0 - 9)
    return [os.path.join(folder, n) for n in names]


def write_hdf(path, vol, key="entry/data", extra=None, opts=None):
    import h5py
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with h5py.File(path, "w") as f:
        f.create_dataset(key, data=vol, **(opts or {}))
        for k, v in (extra or {}).items():
            f.create_dataset(k, data=v)


def read_hdf(path, key):
    import h5py
    try:
        with h5py.File(path, "r") as f:
            if key not in f:
                raise Violation("bad-output", "dataset %s missing in %s" % (
                    key, os.path.basename(path)))
            return f[key][()]
    except OSError as e:
        raise Violation("bad-output", "cannot read %s: %s" % (
            os.path.basename(path), str(e)[:200]))


def bystanders(root):
    for d in ("in", "keep", "out", "out/tmp", "out/temp", "out/res_old",
              "out/Output_00001"):
        os.makedirs(os.path.join(root, d), exist_ok=True)
    for n, t in (("keep/notes.txt", "keep me\n"),
                 ("out/neighbour.txt", "neighbour\n"),
                 ("out/tmp/precious.txt", "precious\n"),
                 ("out/temp/file_tmp.hdf", "not really hdf\n"),
                 ("out/res_old/img_00000.tif", "old\n"),
                 ("out/Output_00001/x", "x\n"),
                 ("out/file_tmp.hdf", "also precious\n")):
        with open(os.path.join(root, n), "w") as f:
            f.write(t)


def J(root, *a):
    return os.path.join(root, *a)


SUFFIXES = (".tmp", ".part", ".bak", "{e}.tmp", "{e}~", "{e}.part",
            "_tmp{e}", ".lock", "_old{e}", ".temp")
CLUTTER_TIFS = ("img_dark.tif", "img2_00000.tif", "img_0.tif", "slice_x.tif",
                "img_tmp.tif", "slice.tif", "img_00001.tif_old",
                "img_00000.tif.bak", "slice_00001.tiff~", "img_00002.tmp",
                "img_00001_part.tif", "old_img_00001.tif")


def clutter(op, root, p):
    """Files of the user next to (and in) the output, with related names."""
    if not p.get("clutter", p.get("seed", 1) % 3 == 0):
        return
    if hasattr(op, "_list"):
        ts = op._list(p)[:3]
    elif hasattr(op, "target"):
        ts = [op.target(p)]
    elif hasattr(op, "base"):
        ts = [op.base(p)]
    else:
        ts = []
    pats = [re.compile(x) for x in op.outputs(p)]
    own = set(ts)
    for t in ts:
        d, b = os.path.split(t)
        b, e = os.path.splitext(b)
        if os.path.isdir(J(root, d)):
            for sfx in SUFFIXES:
                own.add(d + "/" + b + sfx.format(e=e))
            own.add(d + "/." + b + e)
            own.add(d + "/tmp_" + b + e)
        if os.path.isdir(J(root, t)):
            for n in CLUTTER_TIFS + (".hidden", "thumb.png"):
                own.add(t + "/" + n)
    if os.path.isdir(J(root, "out/vis")):
        own |= {"out/vis/center_5.00.tif", "out/vis/Find_center.tif"}
    for n in ("in/data_tmp.hdf", "in/data.hdf.tmp", "in/data.part"):
        own.add(n)
    for f in sorted(own - set(ts)):
        if not os.path.lexists(J(root, f)) and \
                not any(r.match(f) for r in pats):
            with open(J(root, f), "w") as h:
                h.write("user file " + f + "\n")


def vol_of(p):
    return data(p["shape"], p["seed"], p["dtype"], p.get("content", "noise"))


def gen_common(rng, dtypes=("float32", "uint16", "uint8"), big=False):
    hi = 8 if big else 6
    shape = [rng.randrange(2, hi), rng.randrange(3, hi + 1),
             rng.randrange(3, hi + 1)]
    if rng.random() < getattr(rng, "large", 0.1) / 2:
        shape[1 + rng.randrange(2)] = rng.randrange(33, 140)
    return {"shape": shape,
            "seed": rng.randrange(1 << 30), "dtype": rng.choice(dtypes),
            "content": rng.choice(("noise", "noise", "noise", "blocks",
                                   "sparse", "signed")),
            "names": rng.choice(("pad", "gap", "words", "num")),
            "ext": rng.choice(("tif", "tif", "tiff", "mix"))}


def gen_depth(rng, lo, hi):
    """Number of images: mostly few, sometimes many."""
    large = getattr(rng, "large", 0.1)      # clean runs: more of them
    if rng.random() < large:
        return rng.randrange(9, 42) if rng.random() < (
            0.9 if large < 0.2 else 0.4) else rng.randrange(42, 160)
    return rng.randrange(lo, hi)


def gen_workers(rng):
    return {"ncore": rng.choice((None, 1, 2, 2, 3, 4, 8, 30)),
            "prefer": rng.choice(("threads", "threads", "processes"))}


def gen_crop6(rng, shape):
    if rng.random() < 0.4:
        return [0] * 6
    out = []
    for n in shape:
        room = n - 1
        a = rng.randrange(0, room + 1) if rng.random() < 0.6 else 0
        b = rng.randrange(0, room - a + 1) if rng.random() < 0.6 else 0
        a, b = min(a, 3), min(b, 3)
        out += [a, b]
    return out


def gen_crop4(rng, h, w):
    if rng.random() < 0.4:
        return [0] * 4
    return gen_crop6(rng, [1, h, w])[2:]


def crop6(vol, c):
    d, h, w = vol.shape
    return vol[c[0]:d - c[1], c[2]:h - c[3], c[4]:w - c[5]]


def prep_lifted(root, p, axis):
    """The volume at a high index of an otherwise empty dataset."""
    import h5py
    v = vol_of(p)
    n = v.shape[axis]
    sh = list(v.shape)
    sh[axis] += p["lift"]
    ch = list(v.shape)
    ch[axis] = min(64, sh[axis])
    os.makedirs(J(root, "in"), exist_ok=True)
    with h5py.File(J(root, "in/data.hdf"), "w") as f:
        d = f.create_dataset(p["key"], tuple(sh), v.dtype, chunks=tuple(ch))
        ix = [slice(None)] * 3
        ix[axis] = slice(sh[axis] - n, None)
        d[tuple(ix)] = v


def src_path(root, p):
    return J(root, "in/data.hdf") if p["src"] == "hdf" else J(root, "in/data")


def prep_src(root, p):
    vol = vol_of(p)
    if p["src"] == "hdf":
        opts = {}
        if p.get("chunks"):
            opts["chunks"] = (1,) + vol.shape[1:]
        write_hdf(J(root, "in/data.hdf"), vol, p.get("key", "entry/data"),
                  {"entry/other": np.arange(4)}, opts)
    elif p["src"] == "tif":
        write_tif_folder(J(root, "in/data"), vol, p)


def src_arg(root, p):
    return vol_of(p) if p["src"] == "array" else src_path(root, p)


def tifs_in(folder):
    if not os.path.isdir(folder):
        raise Violation("bad-output", "output folder %s is missing"
                        % os.path.basename(folder))
    return sorted(f for f in os.listdir(folder)
                  if re.search(r"\.tiff?$", f))


def check_tif_folder(folder, want, what, tol=0, names=None, exact_dtype=None):
    got = [f for f in tifs_in(folder) if f not in CLUTTER_TIFS]
    if names is not None:
        if got != sorted(names):
            raise Violation("bad-output", "%s: files %s, expected %s" % (
                what, got[:8], sorted(names)[:8]))
        want = [want[k] for k in sorted(range(len(names)),
                                        key=lambda k: names[k])]
    elif len(got) != len(want):
        raise Violation("bad-output", "%s: %d images, expected %d" % (
            what, len(got), len(want)))
    for k, n in enumerate(got):
        m = read_tif(os.path.join(folder, n))
        cmp_values(m, want[k], "%s, %s" % (what, n), tol)
        if exact_dtype is not None and m.dtype != np.dtype(exact_dtype):
            raise Violation("bad-output", "%s, %s: dtype %s, expected %s" % (
                what, n, m.dtype, exact_dtype))


def cmp_values(got, want, what, tol=0):
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        raise Violation("wrong-result", "%s: shape %s, expected %s" % (
            what, got.shape, want.shape))
    if tol == 0:
        if not same_array(got, want):
            raise Violation("wrong-result", diff_text(got, want, what))
        return
    if got.dtype.kind in "iu":
        d = np.abs(got.astype(np.float64) - want.astype(np.float64))
        if d.size and d.max() > tol:
            raise Violation("wrong-result", diff_text(got, want, what)
                            + " (tolerance %g)" % tol)
        return
    expect_close(got, want, what, rtol=2e-5, atol=1e-7)


# ------------------------------------------------------------ references
def ref_rescale(mat, nbit, minmax=None):
    m = np.asarray(mat, dtype=np.float64)
    lo, hi = (m.min(), m.max()) if minmax is None else minmax
    m = (np.clip(m, lo, hi) - lo) / (hi - lo)
    top = 255 if nbit == 8 else 65535
    return np.clip(m * top, 0, top).astype(np.uint8 if nbit == 8
                                           else np.uint16)


def ref_downsample(vol, cell, method):
    f = {"mean": np.mean, "median": np.median, "max": np.max,
         "min": np.min}[method]
    c0, c1, c2 = cell
    d, h, w = vol.shape[0] // c0, vol.shape[1] // c1, vol.shape[2] // c2
    v = np.asarray(vol[:d * c0, :h * c1, :w * c2], dtype=np.float64)
    out = np.empty((d, h, w))
    for i in range(d):
        for j in range(h):
            for k in range(w):
                b = v[i * c0:(i + 1) * c0, j * c1:(j + 1) * c1,
                      k * c2:(k + 1) * c2]
                # along the width, then the depth, then the height
                out[i, j, k] = f(f(f(b, axis=2), axis=0), axis=0)
    return out


def ref_stats(vol, percentile, skip, denoise):
    rows = []
    skip = max(1, min(int(skip), max(1, vol.shape[0] - 1)))
    for i in range(0, vol.shape[0], skip):
        m = vol[i]
        if denoise:
            m = ndi.gaussian_filter(m, 2)
        rows.append((np.min(m), np.max(m), np.percentile(m, percentile[0]),
                     np.percentile(m, percentile[-1]), np.mean(m),
                     np.median(m), np.var(m)))
    r = np.asarray(rows, dtype=np.float64)
    return np.array([r[:, 0].min(), r[:, 1].max(), r[:, 2].min(),
                     r[:, 3].max(), r[:, 4].mean(), np.median(r[:, 5]),
                     r[:, 6].mean()])


def step_of(p, vol):
    """Step of the images whose range counts."""
    return max(1, min(int(p.get("skip") or 1), max(1, vol.shape[0] - 1)))


def gen_skip(rng, p):
    """The default step looks at every image of a short stack only."""
    if p["shape"][0] > 6 or rng.random() < 0.2:
        p["skip"] = rng.choice((1, 1, 2, 3, 7))


def gen_dtype(rng, p, ok):
    """Sometimes double precision, where source and output can hold it."""
    if ok and rng.random() < 0.25:
        p["dtype"] = "float64"


def stack_range(vol, skip):
    s = vol[::skip]
    return float(s.min()), float(s.max())


# ------------------------------------------------------------ operations
class Op:
    name = ""
    parallel = False        # uses worker pools
    writes = True           # produces files
    silent_ok = False

    def outputs(self, p):
        """Regular expressions of paths (relative to root) the call may
        create or change."""
        return []

    def files(self, root, p):
        """Judge the files on disk (any process)."""

    def result(self, root, p, res):
        """Judge the in-memory result."""

    def release(self, res):
        """Close what the caller is given to close."""

    def again(self, p):
        """Parameters for repeating the call over its own output."""
        q = dict(p)
        q["overwrite"] = True
        return q


class LoadMultiple(Op):
    name, parallel, writes = "load_multi", True, False

    def gen(self, rng):
        p = gen_common(rng)
        n = gen_depth(rng, 1, 10)
        p["shape"][0] = n
        p.update(gen_workers(rng))
        p["png"] = p["dtype"] == "uint8" and rng.random() < 0.4
        k = rng.randrange(1, n + 1)
        p["pick"] = [rng.randrange(n) for _ in range(rng.choice((k, n, n + 2)))
                     ] if rng.random() < 0.6 else list(range(n))
        p["missing"] = (rng.randrange(len(p["pick"]))
                        if rng.random() < 0.1 else None)
        # images of several folders, the same file names in each
        p["folders"] = not p["png"] and p["missing"] is None and \
            rng.random() < 0.3
        return p

    def _paths(self, root, p):
        nm = names_for(p, p["shape"][0])
        if p.get("folders"):
            return [J(root, "in/data%d" % (k % 3), nm[k // 3])
                    for k in p["pick"]]
        if p["png"]:
            nm = [os.path.splitext(x)[0] + ".png" for x in nm]
        out = [J(root, "in/data", nm[k]) for k in p["pick"]]
        if p["missing"] is not None:
            out[p["missing"]] = J(root, "in/data/absent.tif")
        return out

    def prepare(self, root, p):
        v = vol_of(p)
        if p["png"]:
            os.makedirs(J(root, "in/data"), exist_ok=True)
            for n, m in zip(names_for(p, len(v)), v):
                write_tif(J(root, "in/data",
                            os.path.splitext(n)[0] + ".png"), m)
        elif p.get("folders"):
            nm = names_for(p, len(v))
            for k, m in enumerate(v):
                os.makedirs(J(root, "in/data%d" % (k % 3)), exist_ok=True)
                write_tif(J(root, "in/data%d" % (k % 3), nm[k // 3]), m)
        else:
            write_tif_folder(J(root, "in/data"), v, p)

    def call(self, root, p):
        import algotom.io.loadersaver as losa
        return losa.load_image_multiple(self._paths(root, p),
                                        ncore=p["ncore"], prefer=p["prefer"])

    def expect_error(self, p):
        return p["missing"] is not None

    def result(self, root, p, res):
        v = vol_of(p).astype(np.float32)
        cmp_values(res, v[p["pick"]], "loaded stack")


class Emulator(Op):
    name, parallel, writes = "emulator", True, False

    def gen(self, rng):
        p = gen_common(rng)
        n = gen_depth(rng, 2, 10)
        p["shape"][0] = n
        p["upper"] = rng.random() < 0.15
        if p["upper"]:
            p["ext"] = "tif"
        p["ncore"] = rng.choice((1, 2, 3, 4, 8, 20))
        p["sel"] = [self._sel(rng, p["shape"]) for _ in
                    range(rng.choice((1, 1, 2, 3)))]
        # the caller works in place on what it got and asks again
        p["reuse"] = rng.random() < 0.5
        if p["reuse"]:
            p["sel"] += [rng.choice(p["sel"]) for _ in range(2)]
        return p

    @staticmethod
    def _slice(rng, n):
        while True:
            a = rng.choice((None, rng.randrange(-n, n)))
            b = rng.choice((None, rng.randrange(-n, n + 3)))
            c = rng.choice((None, 1, 2, 3, -1, -2))
            if len(range(*slice(a, b, c).indices(n))):
                return ["s", a, b, c]

    def _sel(self, rng, shape):
        n, h, w = shape
        k = rng.random()
        if k < 0.25:
            return ["i", rng.randrange(-n, n)]
        if k < 0.6:
            return self._slice(rng, n)
        z = (["i", rng.randrange(-n, n)] if rng.random() < 0.4
             else self._slice(rng, n))
        y = ["i", rng.randrange(h)] if rng.random() < 0.3 \
            else self._slice(rng, h)
        x = ["i", rng.randrange(w)] if rng.random() < 0.3 \
            else self._slice(rng, w)
        return ["t", z, y, x]

    def _idx(self, s):
        if s[0] == "i":
            return s[1]
        if s[0] == "s":
            return slice(*s[1:])
        return tuple(self._idx(x) for x in s[1:])

    def prepare(self, root, p):
        files = write_tif_folder(J(root, "in/data"), vol_of(p), p)
        if p["upper"]:
            for f in files:
                os.rename(f, os.path.splitext(f)[0] + ".TIF")

    def call(self, root, p):
        import algotom.io.converter as conv
        e = conv.HdfEmulatorFromTif(J(root, "in/data"), ncore=p["ncore"])
        if p.get("_between"):
            p["_between"]()
        out = [tuple(e.shape), len(e), str(e.dtype)]
        for s in p["sel"]:
            r = e[self._idx(s)]
            if p.get("reuse"):
                w, r = r, np.array(r)
                if isinstance(w, np.ndarray):
                    w[...] = -3
            out.append(r)
        return out

    def result(self, root, p, res):
        v = vol_of(p).astype(np.float32)
        if res[0] != v.shape or res[1] != len(v):
            raise Violation("wrong-result", "emulator shape %s/%d, expected "
                            "%s" % (res[0], res[1], v.shape))
        if res[2] != "float32":
            raise Violation("wrong-result", "emulator dtype " + res[2])
        for s, r in zip(p["sel"], res[3:]):
            cmp_values(r, v[self._idx(s)], "emulator%s" % (s,))


class SaveMultiple(Op):
    name, parallel = "save_multi", True

    def gen(self, rng):
        p = gen_common(rng)
        p["shape"] = [rng.randrange(1, 7) for _ in range(3)]
        p["axis"] = rng.choice((0, 1, 2))
        if rng.random() < getattr(rng, "large", 0.1):
            p["shape"][p["axis"] if rng.random() < 0.8 else
                       rng.randrange(3)] = rng.randrange(20, 160)
        p.update(gen_workers(rng))
        p["start"] = rng.choice((0, 0, 3, 97, 9997, 99990, 99998, 100000))
        p["target"] = rng.choice(("folder", "list"))
        p["layout"] = rng.choice(("C", "F", "neg"))
        p["overwrite"] = rng.random() < 0.6
        p["existing"] = rng.choice((0, 0, 1, 2, 99))
        p["deep"] = rng.random() < 0.4
        p["dots"] = rng.random() < 0.4
        n = p["shape"][p["axis"]]
        p["nlist"] = n + rng.choice((-1, 1)) \
            if p["target"] == "list" and rng.random() < 0.08 else n
        # targets that are the automatically chosen names of other targets
        p["collide"] = p["target"] == "list" and not p["overwrite"] and \
            p["nlist"] == n and rng.random() < 0.5
        return p

    def base(self, p):
        return "out/a/b/res" if p["deep"] else "out/res"

    def _list(self, p):
        """relative target paths, in slice order"""
        n = p["shape"][p["axis"]]
        if p["target"] == "folder":
            return [self.base(p) + "/img_%05d.tif" % (p["start"] + i)
                    for i in range(n)]
        if p.get("collide"):
            nm = ["s" * (1 + k // 24) + "_0000" * (k % 3)
                  + "_0001" * (k // 3 % 8) + ".tif"
                  for k in range(p["nlist"])]
        elif p.get("dots"):
            # names that differ behind a dot only
            nm = ["c_%d.%d%s.tif" % (k // 4, k % 4, ".b" * (k % 2))
                  for k in range(p["nlist"])]
        else:
            nm = names_for(dict(p, names="words", ext="mix"), p["nlist"])
        r = np.random.RandomState(p["seed"] % 1000)
        return [self.base(p) + "/" + ("s%d/" % (k % 2) if p["deep"] else "")
                + nm[k] for k in r.permutation(len(nm))]

    def outputs(self, p):
        out = [r"^out/(a/|a/b/)$", "^" + self.base(p) + r"/(s[01]/)?$"]
        for t in self._list(p):
            b, e = os.path.splitext(t)
            out.append("^" + re.escape(b) + r"(_\d\d\d\d)"
                       + ("*" if p.get("collide") else "?") + re.escape(e)
                       + "$")
        return out

    def prepare(self, root, p):
        lst = self._list(p)
        r = np.random.RandomState((p["seed"] + 3) % 1000)
        if p["existing"]:
            k = min(len(lst), p["existing"])
            for j in r.permutation(len(lst))[:k]:
                f = J(root, lst[j])
                os.makedirs(os.path.dirname(f), exist_ok=True)
                write_tif(f, np.full((2, 2), 7, np.uint8))
                if p["existing"] == 2:       # also the first fallback name
                    b, e = os.path.splitext(f)
                    write_tif(b + "_0000" + e, np.full((1, 2), 8, np.uint8))
            # images of the user in the same folder
            os.makedirs(J(root, self.base(p)), exist_ok=True)
            for n in ("img_08888.tif", "other.tif", "img_00000.txt") + (
                    ("img_00000.tif", "img_00001.tif")
                    if p["start"] > 9 else ()):
                with open(J(root, self.base(p), n), "w") as h:
                    h.write("user\n")

    def _vol(self, p):
        v = vol_of(p)
        if p["layout"] == "F":
            v = np.asfortranarray(v)
        elif p["layout"] == "neg":
            v = np.ascontiguousarray(v[::-1])[::-1]
        return v

    def call(self, root, p):
        import algotom.io.loadersaver as losa
        tgt = J(root, self.base(p)) if p["target"] == "folder" else \
            [J(root, x) for x in self._list(p)]
        return losa.save_image_multiple(
            tgt, self._vol(p), axis=p["axis"], overwrite=p["overwrite"],
            ncore=p["ncore"], prefer=p["prefer"], start_idx=p["start"])

    def expect_error(self, p):
        return p["nlist"] != p["shape"][p["axis"]]

    def files(self, root, p, before=None):
        v = self._vol(p)
        lst = self._list(p)
        if p.get("collide") and before is not None and not p["overwrite"]:
            self._matched(root, p, before, v, lst)
            return
        for i, rel in enumerate(lst):
            want = np.take(v, i, axis=p["axis"])
            if p["overwrite"]:
                cmp_values(read_tif(J(root, rel)), want,
                           "image of slice %d (%s)" % (i, rel))
                continue
            # a new file: the given name if it was free, else name_NNNN
            b, e = os.path.splitext(rel)
            cands = [rel] + [b + "_%04d" % k + e for k in range(4)]
            new = [c for c in cands if os.path.exists(J(root, c))
                   and (before is None or c not in before)]
            if len(new) != 1:
                raise Violation("bad-output", "slice %d: new files %s for "
                                "target %s" % (i, new, rel))
            if before is not None and rel not in before and new[0] != rel:
                raise Violation("bad-output", "slice %d went to %s although "
                                "%s was free" % (i, new[0], rel))
            cmp_values(read_tif(J(root, new[0])), want,
                       "image of slice %d (%s)" % (i, new[0]))


    def _matched(self, root, p, before, v, lst):
        """Every slice is in a new file of its own, named after its target."""
        new = [f for f in file_state(root) if f not in before
               and f.endswith(".tif")]
        fits = []
        for i, rel in enumerate(lst):
            want = np.take(v, i, axis=p["axis"])
            fits.append([])
            for f in new:
                if f == rel or re.match(re.escape(rel[:-4]) + r"_\d{4}\.tif$",
                                        f):
                    try:
                        cmp_values(read_tif(J(root, f)), want, "")
                        fits[-1].append(f)
                    except Violation:
                        pass
        owner = {}

        def put(i, seen):
            for f in fits[i]:
                if f not in seen:
                    seen.add(f)
                    if f not in owner or put(owner[f], seen):
                        owner[f] = i
                        return True
            return False
        for i, rel in enumerate(lst):
            if not put(i, set()):
                raise Violation("bad-output", "slice %d (target %s) is in no "
                                "new file of its own; new files: %s" % (
                                    i, os.path.basename(rel), [
                                        os.path.basename(f) for f in new]))


class SaveImage(Op):
    name = "save_image"

    def gen(self, rng):
        p = gen_common(rng)
        p["fmt"] = rng.choice((".tif", ".tif", ".tiff", ".png", ".bmp"))
        p["overwrite"] = rng.random() < 0.7
        p["existing"] = rng.choice((0, 1, 2))
        p["deep"] = rng.random() < 0.5
        p["as_path"] = rng.random() < 0.3
        if rng.random() < 0.3:
            p["shape"] = [1, rng.randrange(40, 130), rng.randrange(40, 130)]
        return p

    def base(self, p):
        return "out/new/deep/res" if p["deep"] else "out/res"

    def outputs(self, p):
        return [r"^out/(new/|new/deep/)$",
                "^" + self.base(p) + r"(_\d\d\d\d)?\%s$" % p["fmt"]]

    def prepare(self, root, p):
        f = J(root, self.base(p))
        if p["existing"]:
            os.makedirs(os.path.dirname(f), exist_ok=True)
            write_tif(f + p["fmt"], np.full((3, 2), 9, np.uint8))
            if p["existing"] == 2:
                write_tif(f + "_0000" + p["fmt"], np.full((2, 2), 3, np.uint8))

    def _mat(self, p):
        return vol_of(p)[0]

    def call(self, root, p):
        import algotom.io.loadersaver as losa
        import pathlib
        f = J(root, self.base(p)) + p["fmt"]
        out = losa.save_image(pathlib.Path(f) if p["as_path"] else f,
                              self._mat(p), overwrite=p["overwrite"])
        return os.path.relpath(str(out), os.path.realpath(root))

    def target(self, p):
        if p["overwrite"] or not p["existing"]:
            return self.base(p) + p["fmt"]
        return self.base(p) + ("_0000" if p["existing"] == 1 else "_0001") \
            + p["fmt"]

    def result(self, root, p, res):
        if res != self.target(p):
            raise Violation("wrong-result", "returned path %s, expected %s"
                            % (res, self.target(p)))

    def files(self, root, p):
        m = self._mat(p)
        got = read_tif(J(root, self.target(p)))
        if p["fmt"].startswith(".tif"):
            cmp_values(got, m, "saved image")
        else:
            f = m.astype(np.float64)
            w = 255.0 * (f - f.min()) / (f.max() - f.min())
            cmp_values(got, w.astype(np.uint8), "saved 8-bit image", tol=1)


class Convert(Op):
    name = "tif_to_hdf"

    def gen(self, rng):
        p = gen_common(rng)
        p["shape"][0] = gen_depth(rng, 1, 7)
        p["crop"] = gen_crop4(rng, p["shape"][1], p["shape"][2])
        p["fmt"] = rng.choice((".hdf", ".h5", ".nxs", "", ".hdf5"))
        p["key"] = rng.choice(("entry/data", "data", "a/b/c"))
        p["meta"] = rng.random() < 0.5
        p["pattern"] = rng.random() < 0.3
        p["existing"] = rng.random() < 0.25
        p["deep"] = rng.random() < 0.4
        return p

    def base(self, p):
        return "out/new/deep/res" if p["deep"] else "out/res"

    def target(self, p):
        return self.base(p) + (p["fmt"] or ".hdf")

    def outputs(self, p):
        return [r"^out/(new/|new/deep/)$", "^" + re.escape(self.target(p))
                + "$"]

    def prepare(self, root, p):
        v = vol_of(p)
        if p["pattern"]:
            # only files having the pattern are wanted
            f = J(root, "in/data")
            os.makedirs(f, exist_ok=True)
            for i, n in enumerate(names_for(p, len(v))):
                write_tif(J(f, "scanA_" + n), v[i])
                write_tif(J(f, "scanB_" + n), (v[i] * 0).astype(v.dtype))
                if p["seed"] % 2:
                    for o in ("SCANA_", "scana_", "scan_A_", "canA_"):
                        write_tif(J(f, o + n), (v[i] * 0).astype(v.dtype))
        else:
            write_tif_folder(J(root, "in/data"), v, p)
        if p["existing"]:
            write_hdf(J(root, self.target(p)), np.zeros((2, 2)))

    def _meta(self, p):
        return {"options": {"entry0/angles": np.linspace(0, 1, 7),
                            "entry0/energy": 53.1,
                            "entry0/count": np.array([2 ** 53 - 1, -1]),
                            "entry0/mask": np.array([True, False]),
                            "empty": np.zeros(0),
                            "name": np.arange(3)}} if p["meta"] else {}

    def call(self, root, p):
        import algotom.io.converter as conv
        out = conv.convert_tif_to_hdf(
            J(root, "in/data"), J(root, self.base(p) + p["fmt"]),
            key_path=p["key"], crop=tuple(p["crop"]),
            pattern="scanA" if p["pattern"] else None, **self._meta(p))
        return os.path.relpath(str(out), os.path.realpath(root))

    def result(self, root, p, res):
        if res != self.target(p):
            raise Violation("wrong-result", "returned path %s, expected %s"
                            % (res, self.target(p)))

    def files(self, root, p):
        v = vol_of(p)
        c = p["crop"]
        want = crop6(v, [0, 0] + c).astype(np.float32)
        got = read_hdf(J(root, self.target(p)), p["key"])
        cmp_values(got, want, "converted dataset")
        for k, m in self._meta(p).get("options", {}).items():
            cmp_values(read_hdf(J(root, self.target(p)), k), m,
                       "metadata " + k)


class Extract(Op):
    name = "hdf_to_tif"

    def gen(self, rng):
        p = gen_common(rng)
        p["src"] = "hdf"
        p["chunks"] = rng.random() < 0.3
        p["key"] = rng.choice(("entry/data", "d"))
        p["axis"] = ax = rng.choice((0, 1, 2))
        far = rng.random() < getattr(rng, "large", 0.1)
        if far:
            p["shape"][ax] = rng.randrange(20, 160)
        n = p["shape"][ax]
        if rng.random() < 0.25:
            p["index"] = rng.randrange(n)
        else:
            a = rng.randrange(0, n)
            p["index"] = [a, rng.choice((-1, rng.randrange(a + 1, n + 1),
                                         n + 4)), rng.choice((1, 1, 2, 3))]
            if far:
                p["index"][0] = a % 7
                p["index"][2] = rng.choice((1, 1, 2, 5, rng.randrange(3, 40)))
        oth = [p["shape"][k] for k in range(3) if k != ax]
        p["crop"] = gen_crop4(rng, oth[0], oth[1])
        p["prefix"] = rng.choice(("img", "slice"))
        p["existing"] = rng.random() < 0.25
        p["deep"] = rng.random() < 0.4
        p["lift"] = 99997 if rng.random() < 0.05 else 0
        return p

    def base(self, p):
        return "out/new/res" if p["deep"] else "out/res"

    def outputs(self, p):
        return [r"^out/new/$", "^" + self.base(p) + "/$",
                "^" + self.base(p) + "/" + p["prefix"] + r"_\d{5,6}\.tif$"]

    def _idx(self, p):
        n = p["shape"][p["axis"]]
        if isinstance(p["index"], int):
            return [p["index"]]
        a, b, s = p["index"]
        b = n if b < 1 or b > n else b
        return list(range(a, b, s))

    def prepare(self, root, p):
        up = p.get("lift", 0)
        if up:
            prep_lifted(root, p, p["axis"])
        else:
            prep_src(root, p)
        if p["existing"]:
            f = J(root, self.base(p))
            os.makedirs(f, exist_ok=True)
            write_tif(J(f, "%s_%05d.tif" % (p["prefix"],
                                            self._idx(p)[0] + up)),
                      np.zeros((2, 2), np.uint8))

    def call(self, root, p):
        import algotom.io.converter as conv
        up = p.get("lift", 0)
        if isinstance(p["index"], int):
            ix = p["index"] + up
        else:
            a, b, s = p["index"]
            ix = (a + up, b + up if b > 0 else b, s)
        return conv.extract_tif_from_hdf(
            src_path(root, p), J(root, self.base(p)), p["key"], index=ix,
            axis=p["axis"], crop=tuple(p["crop"]), prefix=p["prefix"])

    def files(self, root, p):
        v = np.moveaxis(vol_of(p), p["axis"], 0)
        c = p["crop"]
        ix = self._idx(p)
        up = p.get("lift", 0)
        want = [crop6(v, [0, 0] + c)[i] for i in ix]
        check_tif_folder(J(root, self.base(p)), want, "extracted images",
                         names=["%s_%05d.tif" % (p["prefix"], i + up)
                                for i in ix],
                         exact_dtype=p["dtype"])


class DatasetOut(Op):
    """Shared by the operations having array/tif/hdf output."""

    def base(self, p):
        return "out/new/deep/res" if p["deep"] else "out/res"

    def target(self, p):
        return self.base(p) + (p["fmt"] if p["out"] == "hdf" else "")

    def outputs(self, p):
        if p["out"] == "array":
            return []
        t = "^" + re.escape(self.target(p))
        return [r"^out/(new/|new/deep/)$"] + (
            [t + "$"] if p["out"] == "hdf" else
            [t + "/$", t + r"/img_\d{5,6}\.tif$"])

    def gen_out(self, rng, p, outs):
        p["out"] = rng.choice(outs)
        p["fmt"] = rng.choice((".hdf", ".h5", ".nxs"))
        p["existing"] = p["out"] != "array" and rng.random() < 0.25
        p["deep"] = rng.random() < 0.4
        p["overwrite"] = bool(p["existing"]) or rng.random() < 0.4
        p["old"] = rng.choice(("valid", "valid", "tiny", "empty", "garbage"))

    def prep_out(self, root, p, first=0):
        if p["existing"]:
            t = J(root, self.target(p))
            old = p.get("old", "valid")
            if p["out"] == "hdf" and old != "valid":
                os.makedirs(os.path.dirname(t), exist_ok=True)
                with open(t, "w") as h:
                    h.write({"tiny": "u", "empty": ""}.get(old, "user" * 500))
            elif p["out"] == "hdf":
                write_hdf(t, np.zeros((2, 2)))
            else:
                os.makedirs(t, exist_ok=True)
                write_tif(J(t, "img_%05d.tif" % first),
                          np.zeros((2, 2), np.uint8))
                with open(J(t, "about_tif_files.txt"), "w") as h:
                    h.write("user\n")

    def out_arg(self, root, p):
        return None if p["out"] == "array" else J(root, self.target(p))

    def release(self, res):
        import h5py
        if isinstance(res, h5py.Dataset) and res:
            res.file.close()


def gen_dataset(rng, srcs=("array", "tif", "hdf")):
    p = gen_common(rng)
    p["src"] = rng.choice(srcs)
    p["shape"][0] = gen_depth(rng, 1, 7)
    p["key"] = rng.choice(("entry/data", "d"))
    p["chunks"] = rng.random() < 0.3
    return p


class Downsample(DatasetOut):
    name = "downsample"

    def gen(self, rng):
        p = gen_dataset(rng)
        p["shape"] = [gen_depth(rng, 1, 7), rng.randrange(2, 8),
                      rng.randrange(2, 8)]
        p["crop"] = gen_crop6(rng, p["shape"])
        self.gen_out(rng, p, ("array", "tif", "hdf"))
        gen_skip(rng, p)
        gen_dtype(rng, p, "tif" not in (p["src"], p["out"]))
        s = [n - a - b for n, a, b in zip(p["shape"], p["crop"][::2],
                                          p["crop"][1::2])]
        p["cell"] = [rng.randrange(1, min(n, 3) + 1) for n in s]
        if rng.random() < 0.3:
            p["cell"] = [rng.randrange(1, min(min(s), 3) + 1)] * 3
            p["cell_int"] = True
        p["method"] = rng.choice(("mean", "median", "max", "min"))
        p["rescaling"] = rng.random() < 0.35
        p["nbit"] = rng.choice((8, 16))
        p["minmax"] = [0.3, 1.1] if p["dtype"][:5] == "float" and \
            rng.random() < 0.5 else None
        return p

    def prepare(self, root, p):
        prep_src(root, p)
        self.prep_out(root, p)

    def call(self, root, p):
        import algotom.post.postprocessing as post
        return post.downsample_dataset(
            src_arg(root, p), self.out_arg(root, p),
            p["cell"][0] if p.get("cell_int") else tuple(p["cell"]),
            method=p["method"],
            key_path=p["key"] if p["src"] == "hdf" else None,
            rescaling=p["rescaling"], nbit=p["nbit"],
            minmax=tuple(p["minmax"]) if p["minmax"] else None,
            skip=p.get("skip"),
            crop=tuple(p["crop"]), overwrite=p["overwrite"])

    def want(self, p):
        v = crop6(vol_of(p), p["crop"])
        w = ref_downsample(v, p["cell"], p["method"])
        rt = "uint8" if p["nbit"] == 8 else "uint16"
        if p["rescaling"] and p["dtype"] != rt:
            mm = {"uint8": (0, 255), "uint16": (0, 65535)}.get(
                p["dtype"], p["minmax"] or stack_range(v, step_of(p, v)))
            if mm[0] == mm[1]:
                return None, 0
            return ref_rescale(w, p["nbit"], mm), 1
        return w.astype(p["dtype"]), 1

    def result(self, root, p, res):
        if p["out"] == "array":
            w, t = self.want(p)
            if w is None:
                return
            cmp_values(res, w, "downsampled array", t)
            if np.asarray(res).dtype != w.dtype:
                raise Violation("wrong-result", "dtype %s, expected %s" % (
                    np.asarray(res).dtype, w.dtype))
        elif p["out"] == "hdf":
            w, t = self.want(p)
            if w is not None:
                cmp_values(res[()], w, "returned dataset", 1)

    def files(self, root, p):
        w, t = self.want(p)
        if w is None:
            return
        if p["out"] == "hdf":
            got = read_hdf(J(root, self.target(p)), "entry/data")
            cmp_values(got, w, "downsampled file", t)
        elif p["out"] == "tif":
            check_tif_folder(J(root, self.target(p)), w, "downsampled images",
                             t, exact_dtype=w.dtype)


class Rescale(DatasetOut):
    name = "rescale"

    def gen(self, rng):
        p = gen_dataset(rng)
        p["crop"] = gen_crop6(rng, p["shape"])
        self.gen_out(rng, p, ("array", "tif", "hdf"))
        gen_skip(rng, p)
        gen_dtype(rng, p, "tif" not in (p["src"], p["out"]))
        p["nbit"] = rng.choice((8, 16, 16, 32))
        p["minmax"] = rng.choice((None, [0.3, 1.1])) \
            if p["dtype"][:5] == "float" else rng.choice((None, [5, 200]))
        p["lift"] = 99998 if p["src"] == "hdf" and p["out"] == "tif" and \
            rng.random() < 0.15 else 0
        return p

    def prepare(self, root, p):
        up = p.get("lift", 0)
        if up:
            prep_lifted(root, p, 0)
        else:
            prep_src(root, p)
        self.prep_out(root, p, p["crop"][0] + up)

    def call(self, root, p):
        import algotom.post.postprocessing as post
        p = dict(p, crop=[p["crop"][0] + p.get("lift", 0)] + p["crop"][1:])
        return post.rescale_dataset(
            src_arg(root, p), self.out_arg(root, p), nbit=p["nbit"],
            minmax=tuple(p["minmax"]) if p["minmax"] else None,
            key_path=p["key"] if p["src"] == "hdf" else None,
            skip=p.get("skip"),
            crop=tuple(p["crop"]), overwrite=p["overwrite"])

    def want(self, p):
        v = crop6(vol_of(p), p["crop"])
        if p["nbit"] == 32:
            return v, 1
        mm = p["minmax"] or stack_range(v, step_of(p, v))
        if mm[0] == mm[1]:
            return None, 0
        return ref_rescale(v, p["nbit"], mm), 1

    def result(self, root, p, res):
        w, t = self.want(p)
        if w is None:
            return
        if p["out"] == "array":
            cmp_values(res, w, "rescaled array", t)
        elif p["out"] == "hdf":
            cmp_values(res[()], w, "returned dataset", t)

    def files(self, root, p):
        w, t = self.want(p)
        if w is None:
            return
        if p["out"] == "hdf":
            got = read_hdf(J(root, self.target(p)), "entry/data")
            cmp_values(got, w, "rescaled file", t)
        elif p["out"] == "tif":
            names = None
            if p.get("lift"):
                a = p["crop"][0] + p["lift"]
                names = ["img_%05d.tif" % (a + i) for i in range(len(w))]
            check_tif_folder(J(root, self.target(p)), w, "rescaled images",
                             t, names=names, exact_dtype=None if p["nbit"] == 32
                             else w.dtype)


class Reslice(DatasetOut):
    name, parallel = "reslice", True

    def gen(self, rng):
        p = gen_dataset(rng, ("tif", "hdf"))
        p["crop"] = gen_crop6(rng, p["shape"])
        self.gen_out(rng, p, ("tif", "hdf"))
        gen_skip(rng, p)
        gen_dtype(rng, p, "tif" not in (p["src"], p["out"]))
        p["axis"] = rng.choice((1, 2))
        p["rescaling"] = rng.random() < 0.35
        p["nbit"] = rng.choice((8, 16))
        p["minmax"] = [0.3, 1.1] if p["dtype"][:5] == "float" and \
            rng.random() < 0.5 else None
        p["rotate"] = rng.choice((0.0, 0.0, 0.0, 10.0, -37.5, 90.0))
        p["mode"] = rng.choice(("constant", "nearest"))
        p["chunk"] = rng.choice((1, 2, 3, 4, 16, 16, 100))
        p["ncore"] = rng.choice((None, 1, 2, 3, 8))
        p["progress"] = rng.random() < 0.5
        return p

    def prepare(self, root, p):
        prep_src(root, p)
        self.prep_out(root, p)

    def call(self, root, p):
        import algotom.post.postprocessing as post
        return post.reslice_dataset(
            src_arg(root, p), self.out_arg(root, p), axis=p["axis"],
            key_path=p["key"] if p["src"] == "hdf" else None,
            rescaling=p["rescaling"], nbit=p["nbit"],
            minmax=tuple(p["minmax"]) if p["minmax"] else None,
            rotate=p["rotate"], chunk=p["chunk"], mode=p["mode"],
            skip=p.get("skip"), crop=tuple(p["crop"]), ncore=p["ncore"],
            show_progress=p["progress"], overwrite=p["overwrite"])

    def outkey(self, p):
        return p["key"] if p["src"] == "hdf" else "entry/data"

    def want(self, p):
        v = vol_of(p)
        raw = crop6(v, p["crop"])
        if p["rotate"]:
            f = v.astype(np.float32) if p["src"] == "tif" else v
            v = np.stack([ndi.rotate(m, p["rotate"], mode=p["mode"],
                                     reshape=False, order=1) for m in f])
            v = v.astype(p["dtype"])
        v = crop6(v, p["crop"])
        v = np.moveaxis(v, p["axis"], 0)
        rt = "uint8" if p["nbit"] == 8 else "uint16"
        if p["rescaling"] and p["dtype"] != rt:
            mm = {"uint8": (0, 255), "uint16": (0, 65535)}.get(
                p["dtype"], p["minmax"] or stack_range(raw, step_of(
                    p, raw)))
            if mm[0] == mm[1]:
                return None, 0
            return ref_rescale(v, p["nbit"], mm), 1
        return v, (1 if p["rotate"] else 0)

    def files(self, root, p):
        w, t = self.want(p)
        if w is None:
            return
        if p["rotate"] and p["rescaling"] and w.dtype == np.uint16 \
                and p["dtype"] == "uint8":
            t = 258          # one grey level of the 8-bit data
        if p["out"] == "hdf":
            got = read_hdf(J(root, self.target(p)), self.outkey(p))
            cmp_values(got, w, "resliced file", t)
        else:
            check_tif_folder(J(root, self.target(p)), w, "resliced images",
                             t, exact_dtype=w.dtype)


class Stats(Op):
    name, writes = "stats", False

    def gen(self, rng):
        p = gen_dataset(rng)
        p["crop"] = gen_crop6(rng, p["shape"])
        gen_dtype(rng, p, p["src"] != "tif")
        p["skip"] = rng.choice((1, 1, 2, 3, 50))
        p["percentile"] = rng.choice(([0, 100], [5, 95], [1, 99]))
        p["denoise"] = rng.random() < 0.4
        return p

    def prepare(self, root, p):
        prep_src(root, p)

    def call(self, root, p):
        import algotom.post.postprocessing as post
        return post.get_statistical_information_dataset(
            src_arg(root, p), percentile=tuple(p["percentile"]),
            skip=p["skip"], denoise=p["denoise"],
            key_path=p["key"] if p["src"] == "hdf" else None,
            crop=tuple(p["crop"]))

    def result(self, root, p, res):
        v = vol_of(p)
        if p["src"] == "tif":
            v = v.astype(np.float32)
        w = ref_stats(crop6(v, p["crop"]), p["percentile"], p["skip"],
                      p["denoise"])
        nm = ("min", "max", "low percentile", "high percentile", "mean",
              "median", "variance")
        for n, a, b in zip(nm, res, w):
            if not np.isclose(float(a), b, rtol=2e-4, atol=1e-5):
                raise Violation("wrong-result", "%s is %r, expected %r" % (
                    n, float(a), b))


class DlsStack(Op):
    name, writes = "stack_dls", False

    def gen(self, rng):
        p = {"seed": rng.randrange(1 << 30), "src": "hdf",
             "dtype": rng.choice(("float32", "uint16")),
             "content": rng.choice(("noise", "noise", "noise", "sparse",
                                    "zero")),
             "nfile": rng.randrange(1, 5),
             "shape": [0, rng.randrange(3, 7), rng.randrange(3, 7)]}
        nd, nr, ns = rng.randrange(0, 4), rng.randrange(0, 4), \
            rng.randrange(1, 5)
        if rng.random() < 0.2:
            nd, nr = rng.choice((0, 3, 14, 33)), rng.choice((0, 2, 12, 25))
        parts = [2] * nd + [1] * nr
        key = list(parts)
        if rng.random() < 0.4:
            key = key[::-1]
        pos = rng.randrange(0, len(key) + 1)
        key = key[:pos] + [0] * ns + key[pos:]
        p["key"] = key
        p["shape"][0] = len(key)
        p["same_key"] = True
        p["idx"] = rng.randrange(ns)
        p["find"] = rng.random() < 0.5
        p["manual"] = rng.choice((None, None, "list", "array"))
        # every file with its own numbers and places of images
        p["vary"] = rng.random() < 0.4
        p["kseed"] = p["seed"]
        if p["vary"]:
            p["manual"] = None
            p["lead"] = True
            # a request is refused if no position is in all the files
            at = [(key.index(0), len(key) - key[::-1].index(0) - 1) for key in
                  (self.keys(p, k) for k in range(p["nfile"]))]
            room = min(b for a, b in at) - max(a for a, b in at)
            p["lead"] = room >= 0
            if p["lead"]:
                p["idx"] = min(p["idx"], room)
        p["crop"] = gen_crop4(rng, p["shape"][1], p["shape"][2])
        p["flat"] = rng.random() < 0.5
        p["dark"] = rng.random() < 0.5
        p["zeros"] = rng.random() < 0.3
        p["neg"] = rng.random() < 0.3
        p["num_use"] = rng.choice((None, None, 1, 2, 99))
        p["fix"] = rng.random() < 0.6
        return p

    def keys(self, p, k):
        """The image types of file k."""
        if not p.get("vary") or not k:
            return p["key"]
        r = np.random.RandomState((p["kseed"] + 3 * k) % (1 << 31))
        lead = p["key"].index(0)
        if p.get("lead"):
            lead = int(r.randint(0, lead + 3))
        kinds = sorted(set(p["key"]) - {0})
        key = [int(r.choice(kinds)) for _ in range(lead if kinds else 0)]
        key += [0] * (p["key"].count(0) + int(r.randint(0, 3)))
        for t in kinds:
            key += [t] * int(r.randint(0 if t in key else 1, 4))
        return key

    def _vols(self, p):
        out = []
        for k in range(p["nfile"]):
            sh = [len(self.keys(p, k))] + p["shape"][1:]
            v = data(sh, p["seed"] + 31 * k, p["dtype"],
                     p.get("content", "noise"))
            if p["zeros"]:
                v[:, 0, 0] = 0
            out.append(v)
        return out

    def _fields(self, p):
        hw = p["shape"][1:]
        f = data(hw, p["seed"] + 1001) + 1.0 if p["flat"] else None
        d = data(hw, p["seed"] + 1002) * 0.1 if p["dark"] else None
        if f is not None and p["zeros"]:
            f[1, 1] = d[1, 1] if d is not None else 0.0
        if f is not None and p.get("neg"):
            f[0, 0] = (d[0, 0] if d is not None else 0.0) - 0.75
            f[-1, 2] = (d[-1, 2] if d is not None else 0.0) - 0.5
        return f, d

    def prepare(self, root, p):
        for k, v in enumerate(self._vols(p)):
            write_hdf(J(root, "in/f%d.nxs" % k), v, "entry1/data/data",
                      {"entry1/tomo_entry/instrument/detector/image_key":
                       np.asarray(self.keys(p, k))})

    def call(self, root, p):
        import algotom.io.loadersaver as losa
        f, d = self._fields(p)
        paths = [J(root, "in/f%d.nxs" % k) for k in range(p["nfile"])]
        if p["manual"] is None:
            ik = None if p["find"] else \
                "entry1/tomo_entry/instrument/detector/image_key"
        else:
            ik = p["key"] if p["manual"] == "list" else np.asarray(p["key"])
        keep = None if f is None else f.copy(), None if d is None else d.copy()
        out = losa.get_reference_sample_stacks_dls(
            p["idx"], paths, data_key=None if p["find"] else
            "entry1/data/data", image_key=ik, crop=tuple(p["crop"]),
            flat_field=f, dark_field=d, num_use=p["num_use"],
            fix_zero_div=p["fix"])
        for a, b, n in ((f, keep[0], "flat"), (d, keep[1], "dark")):
            if a is not None and not np.array_equal(a, b):
                raise Violation("input-modified", n + "-field array changed")
        return out

    def result(self, root, p, res):
        f, d = self._fields(p)
        n = p["nfile"] if p["num_use"] is None else \
            max(1, min(p["num_use"], p["nfile"]))
        c = [0, 0] + p["crop"]

        def cr(a):
            return crop6(a[None], c)[0].astype(np.float64)
        refs, sams = [], []
        for j, v in enumerate(self._vols(p)[:n]):
            v = v.astype(np.float64)
            key = np.asarray(self.keys(p, j))
            dk = cr(d) if d is not None else (
                cr(v[key == 2].mean(axis=0)) if (key == 2).any() else 0.0)
            fd = 1.0
            if f is not None:
                fd = cr(f) - dk
                fd[fd == 0.0] = fd.mean()
            sams.append((cr(v[key == 0][p["idx"]]) - dk) / fd)
            if (key == 1).any():
                refs.append((cr(v[key == 1].mean(axis=0)) - dk) / fd)
        out = []
        for st in (refs, sams):
            if st:
                st = np.asarray(st)
                if p["fix"]:
                    s32 = st.astype(np.float32)
                    st[s32 == 0.0] = s32.mean(dtype=np.float64)
                out.append(st)
        got = list(res) if isinstance(res, tuple) else [res]
        if len(got) != len(out):
            raise Violation("wrong-result", "%d stacks, expected %d" % (
                len(got), len(out)))
        for g, w in zip(got, out):
            expect_close(g, w, "stack", rtol=1e-4, atol=1e-5)


class RefSamStack(DlsStack):
    name = "stack_ref_sam"

    def gen(self, rng):
        p = DlsStack.gen(self, rng)
        p["key"] = [0] * rng.randrange(1, 5)
        p["shape"][0] = len(p["key"])
        p["idx"] = rng.randrange(-1, len(p["key"]))
        p["ref3d"] = rng.random() < 0.6
        p["nref"] = rng.choice((1, 2, 3, 3, 11, 27))
        return p

    def _refs(self, p):
        sh = ([p.get("nref", 3)] if p["ref3d"] else []) + p["shape"][1:]
        if p["ref3d"] and p.get("vary"):
            shs = [[sh[0] + (p["seed"] + k * k) % 3] + sh[1:]
                   for k in range(p["nfile"])]
        else:
            shs = [sh] * p["nfile"]
        return [data(shs[k], p["seed"] + 77 * k + 9, p["dtype"],
                     p.get("content", "noise"))
                for k in range(p["nfile"])]

    def prepare(self, root, p):
        for k, (v, r) in enumerate(zip(self._vols(p), self._refs(p))):
            write_hdf(J(root, "in/s%d.hdf" % k), v, "entry/data")
            write_hdf(J(root, "in/r%d.hdf" % k), r, "entry/ref")

    def call(self, root, p):
        import algotom.io.loadersaver as losa
        f, d = self._fields(p)
        kf, kd = (None if f is None else f.copy(),
                  None if d is None else d.copy())
        out = losa.get_reference_sample_stacks(
            p["idx"], [J(root, "in/r%d.hdf" % k) for k in range(p["nfile"])],
            [J(root, "in/s%d.hdf" % k) for k in range(p["nfile"])],
            "entry/ref", "entry/data", crop=tuple(p["crop"]), flat_field=f,
            dark_field=d, num_use=p["num_use"], fix_zero_div=p["fix"])
        for a, b in ((f, kf), (d, kd)):
            if a is not None and not np.array_equal(a, b):
                raise Violation("input-modified", "field array changed")
        return out

    def result(self, root, p, res):
        f, d = self._fields(p)
        n = p["nfile"] if p["num_use"] is None else \
            max(1, min(p["num_use"], p["nfile"]))
        refs = [r.mean(axis=0, dtype=np.float64) if r.ndim == 3 else r
                for r in self._refs(p)[:n]]
        sams = [v[p["idx"]] for v in self._vols(p)[:n]]
        for g, st in zip(res, (refs, sams)):
            w = correct_stack(st, f, d, p["crop"], p["fix"])
            expect_close(g, w, "stack", rtol=1e-4, atol=1e-5)


def correct_stack(imgs, f, d, crop, fix):
    c = [0, 0] + crop

    def cr(a):
        return crop6(np.asarray(a)[None], c)[0].astype(np.float64)
    dk = cr(d) if d is not None else 0.0
    fd = 1.0
    if f is not None:
        fd = cr(f) - dk
        fd[fd == 0.0] = fd.mean()
    st = np.asarray([(cr(m) - dk) / fd for m in imgs])
    if fix:
        # float32 exactly-zero values are replaced by the mean
        st = np.where(np.float32(st) == 0.0, np.float32(st).mean(), st)
    return st


class ImageStack(Op):
    name, writes = "stack_images", False

    def gen(self, rng):
        p = gen_common(rng)
        p["shape"][0] = rng.randrange(1, 6)
        p["nset"] = rng.randrange(1, 5)
        p["src"] = rng.choice(("tif", "hdf", "hdf2d", "folder"))
        p["idx"] = rng.randrange(-1, p["shape"][0])
        p["all"] = rng.random() < 0.5
        p["average"] = rng.random() < 0.3
        p["crop"] = gen_crop4(rng, p["shape"][1], p["shape"][2])
        p["flat"] = rng.random() < 0.5
        p["dark"] = rng.random() < 0.5
        p["zeros"] = rng.random() < 0.3
        p["neg"] = rng.random() < 0.3
        p["num_use"] = rng.choice((None, None, 1, 2, 99))
        p["fix"] = rng.random() < 0.6
        p["vary"] = rng.random() < 0.4
        return p

    _fields = DlsStack._fields

    def _vols(self, p):
        out = [data([p["shape"][0] + (k * (p["seed"] % 3)
                                      if p.get("vary") else 0)] +
                    p["shape"][1:], p["seed"] + 13 * k, p["dtype"],
                    p.get("content", "noise"))
               for k in range(p["nset"])]
        if p["zeros"]:
            for v in out:
                v[:, 1, 2] = 0
        return out

    def prepare(self, root, p):
        for k, v in enumerate(self._vols(p)):
            if p["src"] in ("tif", "folder"):
                write_tif_folder(J(root, "in/d%d" % k), v,
                                 dict(p, seed=p["seed"] + k))
            else:
                write_hdf(J(root, "in/d%d.hdf" % k),
                          v if p["src"] == "hdf" else v[0], "entry/data")

    def call(self, root, p):
        import algotom.io.loadersaver as losa
        f, d = self._fields(p)
        kf, kd = (None if f is None else f.copy(),
                  None if d is None else d.copy())
        kw = dict(crop=tuple(p["crop"]), flat_field=f, dark_field=d,
                  num_use=p["num_use"], fix_zero_div=p["fix"])
        if p["src"] == "folder":
            out = losa.get_image_stack(None if p["all"] else p["idx"],
                                       J(root, "in/d0"), **kw)
        else:
            ext = "" if p["src"] == "tif" else ".hdf"
            out = losa.get_image_stack(
                p["idx"], [J(root, "in/d%d%s" % (k, ext))
                           for k in range(p["nset"])],
                data_key=None if p["src"] == "tif" else "entry/data",
                average=p["average"], **kw)
        for a, b in ((f, kf), (d, kd)):
            if a is not None and not np.array_equal(a, b):
                raise Violation("input-modified", "field array changed")
        return out

    def result(self, root, p, res):
        f, d = self._fields(p)
        vols = [v.astype(np.float32) if p["src"] in ("tif", "folder")
                else v for v in self._vols(p)]

        def use(n):
            return n if p["num_use"] is None else max(1, min(p["num_use"], n))
        if p["src"] == "folder":
            imgs = list(vols[0][:use(len(vols[0]))]) if p["all"] \
                else [vols[0][p["idx"]]]
        else:
            imgs = []
            for v in vols[:use(len(vols))]:
                if p["src"] == "hdf2d":
                    imgs.append(v[0])
                elif p["average"]:
                    imgs.append(v.mean(axis=0, dtype=np.float64))
                else:
                    imgs.append(v[p["idx"]])
        w = correct_stack(imgs, f, d, p["crop"], p["fix"])
        expect_close(res, w, "image stack", rtol=1e-4, atol=1e-5)


class Distortion(Op):
    name = "distortion"

    def gen(self, rng):
        p = {"seed": rng.randrange(1 << 30), "n": rng.randrange(0, 8),
             "fmt": rng.choice((".txt", ".dat", "", ".csv")),
             "overwrite": rng.random() < 0.6, "existing": rng.choice((0, 1, 2)),
             "deep": rng.random() < 0.4, "np": rng.random() < 0.3,
             "src": "none"}
        return p

    def _vals(self, p):
        r = np.random.RandomState(p["seed"] % (1 << 30))
        v = r.randn(2 + p["n"]) * 10.0 ** r.randint(-12, 5, 2 + p["n"])
        return list(v) if p.get("np") else [float(x) for x in v]

    def base(self, p):
        return "out/new/deep/res" if p["deep"] else "out/res"

    def _ext(self, p):
        return p["fmt"] if p["fmt"] in (".txt", ".dat") else ".txt"

    def target(self, p):
        if p["overwrite"] or not p["existing"]:
            return self.base(p) + self._ext(p)
        return self.base(p) + ("_0000" if p["existing"] == 1 else "_0001") \
            + self._ext(p)

    def outputs(self, p):
        return [r"^out/(new/|new/deep/)$",
                "^" + self.base(p) + r"(_\d\d\d\d)?\%s$" % self._ext(p)]

    def prepare(self, root, p):
        f = J(root, self.base(p))
        if p["existing"]:
            os.makedirs(os.path.dirname(f), exist_ok=True)
            with open(f + self._ext(p), "w") as h:
                h.write("xcenter = 1\nycenter = 2\nfactor0 = 1.0\n" * 9)
            if p["existing"] == 2:
                with open(f + "_0000" + self._ext(p), "w") as h:
                    h.write("xcenter = 3\n")

    def call(self, root, p):
        import algotom.io.loadersaver as losa
        v = self._vals(p)
        out = losa.save_distortion_coefficient(
            J(root, self.base(p) + p["fmt"]), v[0], v[1], v[2:],
            overwrite=p["overwrite"])
        return os.path.relpath(str(out), os.path.realpath(root))

    def result(self, root, p, res):
        if res != self.target(p):
            raise Violation("wrong-result", "returned path %s, expected %s"
                            % (res, self.target(p)))

    def files(self, root, p):
        import algotom.io.loadersaver as losa
        try:
            x, y, fs = losa.load_distortion_coefficient(
                J(root, self.target(p)))
        except Exception as e:
            raise Violation("bad-output", "cannot load the saved "
                            "coefficients: %r" % e)
        got = [x, y] + list(fs)
        want = [float(a) for a in self._vals(p)]
        if got != want:
            raise Violation("wrong-result", "coefficients read back as %s, "
                            "saved %s" % (got[:4], want[:4]))


class LoadDistortion(Op):
    name, writes = "load_distortion", False

    def gen(self, rng):
        return {"seed": rng.randrange(1 << 30), "n": rng.randrange(1, 8),
                "src": "none"}
    _vals = Distortion._vals

    def prepare(self, root, p):
        v = self._vals(p)
        with open(J(root, "in/coef.txt"), "w") as f:
            for k, x in enumerate(v):
                f.write(("xcenter", "ycenter")[k] if k < 2 else
                        "factor%d" % (k - 2))
                f.write(" = %r\n" % float(x))

    def call(self, root, p):
        import algotom.io.loadersaver as losa
        x, y, fs = losa.load_distortion_coefficient(J(root, "in/coef.txt"))
        return [x, y] + list(fs)

    def result(self, root, p, res):
        if res != [float(x) for x in self._vals(p)]:
            raise Violation("wrong-result", "coefficients %s" % res[:3])


class Stream(Op):
    name = "hdf_stream"

    def gen(self, rng):
        p = gen_common(rng, ("float32", "uint16", "float64", "uint8"))
        p["fmt"] = rng.choice((".hdf", ".h5", ".nxs", "", ".dat"))
        p["key"] = rng.choice(("entry/data", "d", "a/b/c"))
        p["meta"] = rng.random() < 0.5
        p["overwrite"] = rng.random() < 0.6
        p["existing"] = rng.choice((0, 1, 2))
        p["deep"] = rng.random() < 0.4
        p["step"] = rng.choice((1, 2, 99))
        return p

    def base(self, p):
        return "out/new/deep/res" if p["deep"] else "out/res"

    def _ext(self, p):
        return p["fmt"] if p["fmt"] in (".hdf", ".h5", ".nxs") else ".hdf"

    target = Distortion.target
    outputs = Distortion.outputs

    def prepare(self, root, p):
        f = J(root, self.base(p))
        if p["existing"]:
            write_hdf(f + self._ext(p), np.full((3, 3), 5.0))
            if p["existing"] == 2:
                write_hdf(f + "_0000" + self._ext(p), np.full((3, 3), 6.0))

    _meta = Convert._meta

    def call(self, root, p):
        import algotom.io.loadersaver as losa
        v = vol_of(p)
        ds = losa.open_hdf_stream(
            J(root, self.base(p) + p["fmt"]), v.shape, key_path=p["key"],
            data_type=p["dtype"], overwrite=p["overwrite"], **self._meta(p))
        name = ds.file.filename
        for i in range(0, len(v), p["step"]):
            ds[i:i + p["step"]] = v[i:i + p["step"]]
        ds.file.close()
        return os.path.relpath(name, os.path.realpath(root))

    def result(self, root, p, res):
        if res != self.target(p):
            raise Violation("wrong-result", "stream went to %s, expected %s"
                            % (res, self.target(p)))

    def files(self, root, p):
        got = read_hdf(J(root, self.target(p)), p["key"])
        cmp_values(got, vol_of(p), "streamed dataset")
        if got.dtype != np.dtype(p["dtype"]):
            raise Violation("wrong-result", "stream dtype %s" % got.dtype)
        for k, m in self._meta(p).get("options", {}).items():
            cmp_values(read_hdf(J(root, self.target(p)), k), m,
                       "metadata " + k)


class Tree(Op):
    name = "hdf_tree"

    def gen(self, rng):
        return {"seed": rng.randrange(1 << 30), "n": rng.randrange(1, 6),
                "deep": rng.random() < 0.4, "shapes": rng.random() < 0.7,
                "src": "none", "existing": rng.random() < 0.3}

    def base(self, p):
        return "out/new/deep/res" if p["deep"] else "out/res"

    def outputs(self, p):
        return [r"^out/(new/|new/deep/)$", "^" + self.base(p) + r"\.txt$"]

    def prepare(self, root, p):
        import h5py
        with h5py.File(J(root, "in/data.hdf"), "w") as f:
            for k in range(p["n"]):
                f.create_dataset("entry/g%d/d%d" % (k % 3, k),
                                 data=np.zeros((k + 1, 4)))
        if p["existing"]:
            t = J(root, self.base(p) + ".txt")
            os.makedirs(os.path.dirname(t), exist_ok=True)
            with open(t, "w") as f:
                f.write("old content that is long enough\n" * 20)

    def call(self, root, p):
        import algotom.io.loadersaver as losa
        return list(losa.get_hdf_tree(
            J(root, "in/data.hdf"), output=J(root, self.base(p) + ".txt"),
            add_shape=p["shapes"], display=False))

    def _judge(self, p, lines):
        for k in range(p["n"]):
            tag = "d%d" % k + (" (%d, 4)" % (k + 1) if p["shapes"] else "")
            hits = [x for x in lines if x.rstrip().endswith(tag)]
            if len(hits) != 1:
                raise Violation("bad-output", "dataset d%d is listed %d times"
                                % (k, len(hits)))

    def result(self, root, p, res):
        self._judge(p, res)

    def files(self, root, p):
        try:
            with open(J(root, self.base(p) + ".txt"), encoding="UTF-8") as f:
                lines = f.read().splitlines()
        except OSError as e:
            raise Violation("bad-output", "tree file: %s" % e)
        self._judge(p, lines)


class HdfRead(Op):
    """Reading helpers: information, key search, slicing a dataset."""
    name, writes = "hdf_read", False

    def gen(self, rng):
        p = gen_common(rng, ("float32", "uint16"))
        p["src"] = "hdf"
        p["key"] = rng.choice(("entry/data", "a/b/data"))
        p["chunks"] = rng.random() < 0.5
        return p

    def prepare(self, root, p):
        prep_src(root, p)

    def call(self, root, p):
        import algotom.io.loadersaver as losa
        f = J(root, "in/data.hdf")
        keys = losa.find_hdf_key(f, "data")
        info = losa.get_hdf_information(f)
        ds, fo = losa.load_hdf(f, p["key"], return_file_obj=True)
        out = ds[()]
        last = ds[-1]
        fo.close()
        return [list(map(str, keys[0])), list(map(str, info[0])),
                [s for s in info[1]], out, last]

    def result(self, root, p, res):
        v = vol_of(p)
        if not any(k.strip("/") == p["key"] for k in res[0]):
            raise Violation("wrong-result", "key %s not found in %s" % (
                p["key"], res[0]))
        sh = [s for k, s in zip(res[1], res[2]) if k.strip("/") == p["key"]]
        if not sh or any(s is None or tuple(s) != v.shape for s in sh):
            raise Violation("wrong-result", "shape %s in file information"
                            % (sh,))
        cmp_values(res[3], v, "hdf dataset")
        cmp_values(res[4], v[-1], "last slice")


class MapHdf(Op):
    name, parallel, writes = "map_hdf", True, False

    def gen(self, rng):
        p = gen_common(rng, ("float32", "uint16"))
        p["src"] = "hdf"
        p["axis"] = rng.choice((0, 1, 2))
        if rng.random() < getattr(rng, "large", 0.1):
            p["shape"][p["axis"]] = rng.randrange(20, 160)
        p.update(gen_workers(rng))
        p["chunks"] = rng.random() < 0.5
        return p

    def prepare(self, root, p):
        prep_src(root, p)

    def call(self, root, p):
        import algotom.io.loadersaver as losa
        import algotom.util.utility as util
        from dst.methods import affine
        ds = losa.load_hdf(J(root, "in/data.hdf"), "entry/data")
        return util.parallel_process_slices(
            ds, affine, [2.0], axis=p["axis"], ncore=p["ncore"],
            prefer=p["prefer"], b=1.5)

    def result(self, root, p, res):
        from dst.methods import affine
        v = vol_of(p)
        w = np.stack([np.float32(affine(np.take(v, i, axis=p["axis"]), 2.0,
                                        b=1.5))
                      for i in range(v.shape[p["axis"]])], axis=p["axis"])
        cmp_values(res, w, "mapped dataset")


class Visual(Op):
    name, parallel = "visual", True

    def gen(self, rng):
        kind = rng.choice(("sino", "slice", "slice", "vertical"))
        n = rng.randrange(8, 14)
        p = {"seed": rng.randrange(1 << 30), "src": "none", "vkind": kind,
             "shape": [rng.randrange(4, 7), rng.randrange(4, 7), n],
             "start": n / 2.0 - rng.choice((1.0, 1.5, 1.25)),
             "ncand": rng.randrange(1, 4),
             "step": rng.choice((0.5, 1.0, 0.25, 0.75)),
             "zoom": 1.0, "method": rng.choice(("dfi", "fbp")),
             "ncore": rng.choice((None, 1, 2, 4)),
             "prev": rng.randrange(0, 4),
             "overwrite": True, "filter": rng.choice(("after", "before"))}
        if kind != "sino" and kind != "vertical" and rng.random() < 0.2:
            p["shape"][0] = 12
            p["zoom"] = 0.5
        return p

    def prepare(self, root, p):
        os.makedirs(J(root, "out/vis"), exist_ok=True)
        for k in range(p["prev"]):
            # earlier results; numbering may have holes
            d = J(root, "out/vis/Find_center_%03d" % (k + 1 + (k % 2)))
            os.makedirs(d, exist_ok=True)
            with open(J(d, "center_1.00.tif"), "w") as f:
                f.write("old")

    def outputs(self, p):
        return [r"^out/vis/Find_center_\d+/$",
                r"^out/vis/Find_center_\d+/center_ *[\d.]+\.tif$"]

    def _centers(self, p):
        return [p["start"] + k * p["step"] for k in range(p["ncand"])]

    def _sino(self, p):
        return data([p["shape"][0], p["shape"][2]], p["seed"])

    def call(self, root, p):
        cs = self._centers(p)
        base = J(root, "out/vis")
        before = set(os.listdir(base))
        stop = cs[-1]
        if p["vkind"] == "sino":
            import algotom.util.utility as util
            out = util.find_center_visual_sinograms(
                self._sino(p), base, cs[0], stop - p["step"] / 2, p["step"],
                zoom=1.0, display=False)
        elif p["vkind"] == "slice":
            import algotom.rec.reconstruction as rec
            out = rec.find_center_visual_slices(
                self._sino(p), base, cs[0], stop - p["step"] / 2, p["step"],
                zoom=p["zoom"], method=p["method"], gpu=False,
                ncore=p["ncore"], display=False)
        else:
            import algotom.rec.vertrec as vr
            out = vr.find_center_visual_vertical_slices(
                data(p["shape"], p["seed"]), base, 3, cs[0],
                stop - p["step"] / 2, p["step"], gpu=False,
                ncore=p["ncore"], prefer="threads", display=False,
                ramp_filter=p["filter"], chunk_size=2)
        name = os.path.basename(os.path.normpath(str(out)))
        if name in before:
            raise Violation("overwritten", "results went into the existing "
                            "folder " + name)
        return name

    def _judge_dir(self, root, p, name):
        import algotom.rec.reconstruction as rec
        d = J(root, "out/vis", name)
        got = {}
        for f in tifs_in(d):
            m = re.match(r"center_ *([\d.]+)\.tif$", f)
            if not m:
                raise Violation("bad-output", "unexpected file " + f)
            got[round(float(m.group(1)), 2)] = read_tif(J(d, f))
        cs = [round(c, 2) for c in self._centers(p)]
        if sorted(got) != sorted(cs):
            raise Violation("bad-output", "images of the centres %s, "
                            "expected %s" % (sorted(got), cs))
        for c in self._centers(p):
            m = got[round(c, 2)]
            if p["vkind"] == "sino":
                s = self._sino(p)
                w = ndi.shift(np.fliplr(s), (0, 2.0 * (
                    c - (s.shape[1] - 1) / 2.0)), order=3, prefilter=False,
                    mode="nearest")
                expect_close(m, np.vstack((s, w)), "image at %.2f" % c,
                             rtol=1e-4)
            elif p["vkind"] == "slice":
                z = p["zoom"]
                s = self._sino(p)
                if z != 1.0:
                    s = ndi.zoom(s, z, order=1, mode="nearest")
                fn = rec.dfi_reconstruction if p["method"] == "dfi" else \
                    rec.fbp_reconstruction
                kw = {} if p["method"] == "dfi" else {"gpu": False}
                w = fn(s, c * z, ratio=1.0, filter_name="hann",
                       apply_log=True, ncore=1, **kw)
                expect_close(m, w, "image at %.2f" % c, rtol=1e-4)
            else:
                import algotom.rec.vertrec as vr
                pr = data(p["shape"], p["seed"])
                w = vr.vertical_reconstruction(
                    pr, 3, c, chunk_size=None, ramp_filter=p["filter"],
                    apply_log=True, gpu=False, ncore=1, prefer="threads",
                    show_progress=False, masking=False)
                wd = p["shape"][2]
                rad = int(min(cs[0], wd - cs[0]))
                pl = (wd - 2 * rad) // 2
                mask = np.zeros(wd)
                mask[pl:pl + 2 * rad] = 1
                expect_close(m, w * mask, "image at %.2f" % c, rtol=1e-4)

    def result(self, root, p, res):
        self._judge_dir(root, p, res)

    def new_dirs(self, root, p, before):
        return [d for d in os.listdir(J(root, "out/vis"))
                if os.path.isdir(J(root, "out/vis", d))
                and "out/vis/" + d + "/" not in before]


OPS = {o.name: o for o in (
    LoadMultiple(), Emulator(), SaveMultiple(), SaveImage(), Convert(),
    Extract(), Downsample(), Rescale(), Reslice(), Stats(), DlsStack(),
    RefSamStack(), ImageStack(), Distortion(), LoadDistortion(), Stream(),
    Tree(), HdfRead(), MapHdf(), Visual())}


def changes(before, after):
    """Paths whose state differs between two file_state snapshots."""
    out = []
    for k in sorted(set(before) | set(after)):
        if before.get(k) != after.get(k):
            out.append((k, before.get(k), after.get(k)))
    return out


def foreign(op, p, before, after, litter_ok=False):
    """Changes to files that are not the operation's declared output."""
    pats = [re.compile(x) for x in op.outputs(p)]
    bad = []
    for k, a, b in changes(before, after):
        if any(r.match(k) for r in pats):
            continue
        if litter_ok and a is None:
            continue
        bad.append((k, "deleted" if b is None else
                    "created" if a is None else "modified"))
    return bad


def warm(base):
    """Load compiled kernels once, before the children are forked."""
    import algotom.rec.reconstruction as rec
    import algotom.rec.vertrec as vr
    s = np.ones((4, 8), np.float32)
    rec.fbp_reconstruction(s, 3.5, gpu=False, ncore=1)
    rec.dfi_reconstruction(s, 3.5, ncore=1)
    vr.vertical_reconstruction(np.ones((4, 4, 8), np.float32), 3, 3.5,
                               gpu=False, show_progress=False, ncore=1)
