"""Catalogue of the in-memory processing functions.

Every entry builds small deterministic arguments from a seed and names the
call.  Used by the properties about concurrent callers and call histories
(C12), failing workers (C17), the host (C18) and random numbers (C19).
"""
import importlib
import random

import numpy as np

from dst import extra
from dst.common import data

PREP = "algotom.prep."


class Func:
    def __init__(self, name, target, build, par=False, rand=False, heavy=False,
                 pool=None, ncores=(None, 1, 2, 3, 8)):
        self.name = name
        self.module, self.attr = target.rsplit(".", 1)
        self.build = build        # rng, seed -> (args, kwargs)
        self.par = par            # has an ncore argument
        self.rand = rand          # uses numpy's global generator
        self.heavy = heavy
        self.ncores = ncores

    def fn(self):
        return getattr(importlib.import_module(self.module), self.attr)

    def args(self, p):
        """(args, kwargs) of the parameters drawn by gen()."""
        rng = random.Random("args:%s" % p["aseed"])
        # "data" fixes the arrays while aseed still draws the options
        BIG[0] = p.get("big", 1)
        try:
            sd = p.get("data", p["aseed"]) % (1 << 30)
            a, k = self.build(rng, sd)
            if p.get("extra"):
                k = dict(k, **extra.draw(self.name, self.fn(), random.Random(
                    "extra:%s" % p["aseed"]), sd, a, k))
        finally:
            BIG[0] = 1
        if p.get("jitter"):
            # (compiled kernels do not check array bounds)
            ints = self.module.rsplit(".", 1)[1] not in (
                "correlation", "phase", "reconstruction", "vertrec")
            a, k = jitter(a, k, random.Random("jit:%s" % p["jitter"]), ints,
                          p.get("one"))
        if p.get("flatten"):
            a, k = degenerate(a, k, p["flatten"])
        if self.par:
            k = dict(k)
            k["ncore"] = p["ncore"]
        return a, k

    def gen(self, rng):
        p = {"f": self.name, "aseed": rng.randrange(1 << 30), "extra": True}
        if self.par:
            p["ncore"] = rng.choice(self.ncores)
        return p

    def enlarge(self, p):
        """The same call on images of a realistic size."""
        if not self.par and not self.heavy and self.name not in NOBIG:
            p["big"] = 12


def jitter(a, k, rng, ints, single=False):
    """Almost the same arguments: numbers moved a little, arrays with one
    element changed or with the same elements in another order."""
    todo = None
    if single:                  # change one argument only
        flex = [x for x in list(a) + list(k.values())
                if isinstance(x, (float, np.ndarray))
                or (isinstance(x, int) and not isinstance(x, bool) and ints)]
        num = [x for x in flex if not isinstance(x, np.ndarray)]
        if num and rng.random() < 0.6:
            flex = num
        todo = rng.choice(flex) if flex else rng

    def one(x):
        if todo is not None and x is not todo:
            return x
        if isinstance(x, bool) or (todo is None and rng.random() < 0.4):
            return x
        if isinstance(x, float):
            return x * (1.0 + rng.choice((-0.06, -0.01, 0.004, 0.02, 0.05)))
        if isinstance(x, int) and ints:
            return x + (1 if x and rng.random() < 0.5 else 0)
        if isinstance(x, np.ndarray) and x.dtype.kind == "f" and x.size > 1:
            x = x.copy()
            r = rng.random()
            if r < 0.4:
                x.flat[rng.randrange(x.size)] *= 1.25
            elif r < 0.6:
                x = np.ascontiguousarray(x[::-1])
            return x
        return x
    return tuple(one(x) for x in a), {n: one(x) for n, x in k.items()}


def degenerate(a, k, how):
    """Images without any contrast: all zero, or all one."""
    def one(x):
        if isinstance(x, np.ndarray) and x.dtype.kind == "f" and x.ndim > 1:
            return np.full_like(x, 0.0 if how == "zero" else 1.0)
        return x
    return tuple(one(x) for x in a), {n: one(x) for n, x in k.items()}


FUNCS = {}


def add(target, build, name=None, **kw):
    name = name or target.rsplit(".", 1)[1]
    if name in FUNCS:
        raise ValueError(name)
    if not target.startswith("algotom"):
        target = "algotom." + target
    FUNCS[name] = Func(name, target, build, **kw)


NOBIG = ("calculate_center_metric", "align_image_stacks", "sort_backward",
         "generate_correlation_map", "interpolate_inside_stripe",
         "calculate_distance", "remove_blob_1d", "back_projection_cpu")
BIG = [1]                   # scale of the generated images (see Func.args)


def sino(s, h=12, w=15, lo=0.25, dtype="float32"):
    h, w = h * BIG[0], w * BIG[0]
    return data((h, w), s, dtype) if dtype != "float32" else \
        np.float32(data((h, w), s) + lo)


def points(s, n):
    """Positions as an array, in no order."""
    r = np.random.RandomState(s)
    return np.array([r.randint(3, 13, n), r.randint(3, 14, n)])


def smooth(s, h=12, w=14):
    h, w = h * BIG[0], w * BIG[0]
    return np.float32(data((h, w), s, "float32", "smooth"))


def vol(s, d=4, h=8, w=9):
    b = int(BIG[0] ** 0.6)
    d, h, w = d * b, h * b, w * b
    return np.float32(data((d, h, w), s) + 0.2)


def D(*a, **k):
    return a, k


# ------------------------------------------------------------- prep.removal
R = "prep.removal."
add(R + "remove_stripe_based_sorting", lambda r, s: D(
    sino(s), 3, dim=r.choice((1, 2))))
add(R + "remove_stripe_based_filtering", lambda r, s: D(
    sino(s), 2, 3, dim=r.choice((1, 2)), sort=r.random() < 0.5))
add(R + "remove_stripe_based_fitting", lambda r, s: D(
    sino(s), 2, 3, sort=r.random() < 0.5, num_chunk=r.choice((1, 2))))
add(R + "remove_large_stripe", lambda r, s: D(
    sino(s, 20), 3.0, 5, norm=r.random() < 0.5))
add(R + "remove_dead_stripe", lambda r, s: D(
    sino(s, 20, 25), 3.0, 5, residual=r.random() < 0.5))
add(R + "remove_all_stripe", lambda r, s: D(
    sino(s, 20, 25), 3.0, 5, 3, dim=r.choice((1, 2))))
add(R + "remove_stripe_based_2d_filtering_sorting", lambda r, s: D(
    sino(s), 2, 3, dim=r.choice((1, 2))))
add(R + "remove_stripe_based_normalization", lambda r, s: D(
    sino(s), 3, num_chunk=r.choice((1, 2)), sort=r.random() < 0.5))
add(R + "remove_stripe_based_regularization", lambda r, s: D(
    sino(s), 0.005, num_chunk=r.choice((1, 2)), sort=r.random() < 0.5,
    apply_log=r.random() < 0.5))
add(R + "remove_stripe_based_fft", lambda r, s: D(
    sino(s), 4, 4, 1, sort=r.random() < 0.5))
add(R + "remove_stripe_based_wavelet_fft", lambda r, s: D(
    sino(s, 40, 44), 1, 1, "db2", sort=r.random() < 0.5))
add(R + "remove_stripe_based_interpolation", lambda r, s: D(
    sino(s, 20, 25), 3.0, 5, norm=r.random() < 0.5))
add(R + "remove_zinger", lambda r, s: D(
    sino(s), 0.05, size=2, check_size=r.random() < 0.5))
add(R + "generate_blob_mask", lambda r, s: D(
    np.float32(data((64, 64), s, "float32", "noise") * 0.05 + 0.5
               + 0.5 * (np.hypot(*np.ogrid[-32:32, -32:32]) < 5)), 12, 2.0))
add(R + "remove_blob_1d", lambda r, s: D(
    sino(s)[0], np.float32((np.arange(15) > 3) * (
        np.arange(15) < 5 + s % 5))))
add(R + "remove_blob", lambda r, s: D(
    sino(s), np.float32(sino(s + 1) > 1.3)))

add(R + "check_zinger_size", lambda r, s: D(sino(s) > 0.9, 4))
add(R + "select_zinger", lambda r, s: D(sino(s) > 0.9, 4))

# ---------------------------------------------------------- prep.correction
C = "prep.correction."
OPTS = ({}, {"option1": {"method": "remove_zinger", "para1": 0.08,
                         "para2": 1}},
        {"option1": {"method": "fresnel_filter", "para1": 100.0,
                     "para2": 1}})
add(C + "flat_field_correction", lambda r, s: D(
    vol(s), vol(s + 1)[0] + 1, vol(s + 2)[0] * 0.1,
    ratio=r.choice((1.0, 0.9)), use_dark=r.random() < 0.8))
add(C + "flat_field_correction", lambda r, s: D(
    sino(s), sino(s + 1)[0] + 1, sino(s + 2)[0] * 0.1, **{
        "option1": {"method": "remove_stripe_based_sorting",
                    "para1": 3}}), name="flat_field_options")
add(C + "unwarp_projection", lambda r, s: D(
    sino(s), 7.0, 5.5, [1.0, 1e-3, 1e-5]))
add(C + "unwarp_sinogram", lambda r, s: D(
    vol(s), 4, 4.0, 3.5, [1.0, 1e-3]))
add(C + "unwarp_sinogram_chunk", lambda r, s: D(
    vol(s), 2, 5, 4.0, 3.5, [1.0, 1e-3]))
add(C + "mtf_deconvolution", lambda r, s: D(
    sino(s, 10, 12), np.float32(sino(s + 1, 14, 16)), 2))
add(C + "generate_tilted_sinogram", lambda r, s: D(vol(s), 4, 3.0))
add(C + "generate_tilted_sinogram_chunk", lambda r, s: D(vol(s), 3, 5, 3.0))
add(C + "generate_tilted_profile_line", lambda r, s: D(sino(s), 5, 3.0))
add(C + "generate_tilted_profile_chunk", lambda r, s: D(sino(s), 4, 7, 3.0))
add(C + "beam_hardening_correction", lambda r, s: D(
    np.clip(sino(s), 0.1, 1.0), 0.1, 2.0, opt=r.random() < 0.5))
add(C + "upsample_sinogram", lambda r, s: D(
    sino(s), 2, pad=4, iteration=1, **r.choice((
        {"center": 7.0, "sino_type": "180"},
        {"center": 0, "sino_type": "360"}))))

# ----------------------------------------------------------- prep.filtering
F = "prep.filtering."
add(F + "fresnel_filter", lambda r, s: D(
    sino(s), 20.0, dim=r.choice((1, 2)), pad=4,
    apply_log=r.random() < 0.5))
add(F + "double_wedge_filter", lambda r, s: D(
    sino(s), center=7.0, pad=4, iteration=2,
    sino_type=r.choice(("180", "360"))))
add(F + "make_double_wedge_mask", lambda r, s: D(12, 13, 4.0))
add(F + "make_fresnel_window", lambda r, s: D(12, 13, 20.0, 2))

# ---------------------------------------------------------- prep.conversion
V = "prep.conversion."
add(V + "stitch_image", lambda r, s: D(
    sino(s), sino(s + 1), 5.5, r.choice((0, 1)), norm=r.random() < 0.5))
add(V + "join_image", lambda r, s: D(
    sino(s), sino(s + 1), 2.5, r.choice((0, 1)), norm=r.random() < 0.5))
add(V + "stitch_image_multiple", lambda r, s: D(
    [sino(s), sino(s + 1), sino(s + 2)], [(5.0, 1), (4.5, 1)]))
add(V + "join_image_multiple", lambda r, s: D(
    [sino(s), sino(s + 1), sino(s + 2)], [(2.0, 1), (2.5, 1)]))
add(V + "convert_sinogram_360_to_180", lambda r, s: D(sino(s), 4.5))
add(V + "convert_sinogram_180_to_360", lambda r, s: D(sino(s), 7.2))
add(V + "extend_sinogram", lambda r, s: D(
    sino(s), 4.5, apply_log=r.random() < 0.5))
add(V + "make_weight_matrix", lambda r, s: D(sino(s), sino(s + 1), 5.0, 1))
add(V + "generate_sinogram_helical_scan", lambda r, s: D(
    5, vol(s, 24, 8, 9), 8, 1.0, 0.0, 16.0, 8.0, scan_type="180",
    flat=vol(s + 1, 1, 8, 9)[0] + 1.0, dark=vol(s + 2, 1, 8, 9)[0] * 0.1))

add(V + "generate_full_sinogram_helical_scan", lambda r, s: D(
    5, vol(s, 24, 8, 9), 8, 1.0, 0.0, 16.0, 8.0, scan_type="180",
    flat=vol(s + 1, 1, 8, 9)[0] + 1.0, dark=vol(s + 2, 1, 8, 9)[0] * 0.1))

# ---------------------------------------------------------- prep.calculation
K = "prep.calculation."
add(K + "find_center_vo", lambda r, s: D(
    sino(s, 16, 20), 8, 12, step=r.choice((0.5, 0.37)), radius=2, ratio=0.5,
    dsp=r.random() < 0.4), par=True)
add(K + "coarse_search_cor", lambda r, s: D(
    sino(s, 16, 20), 7, 12, denoise=r.random() < 0.5), par=True)
add(K + "fine_search_cor", lambda r, s: D(
    sino(s, 16, 20), r.choice((9, 9.13)), 1.5, r.choice((0.5, 0.37)), denoise=r.random() < 0.5), par=True)
add(K + "search_overlap", lambda r, s: D(
    sino(s, 10, 24), sino(s + 1, 10, 24), 7, r.choice((0, 1)),
    denoise=r.random() < 0.5, norm=r.random() < 0.5,
    use_overlap=r.random() < 0.5), par=True)
add(K + "find_overlap", lambda r, s: D(
    sino(s, 10, 24), sino(s + 1, 10, 24), 7, side=r.choice((None, 0, 1)),
    norm=r.random() < 0.5), par=True)
add(K + "find_overlap_multiple", lambda r, s: D(
    [sino(s + k, 10, 24) for k in range(3)], 7, side=r.choice((0, 1))),
    par=True)
add(K + "find_center_360", lambda r, s: D(
    sino(s, 12, 24), 7, side=r.choice((None, 0, 1))), par=True)
add(K + "find_center_projection", lambda r, s: D(
    sino(s, 12, 24), sino(s + 1, 12, 24), win_width=7, chunk_height=6),
    par=True)
add(K + "find_shift_based_phase_correlation", lambda r, s: D(
    sino(s), sino(s + 1), gradient=r.random() < 0.5))
add(K + "find_center_based_phase_correlation", lambda r, s: D(
    sino(s), sino(s + 1)))
add(K + "downsample_cor", lambda r, s: D(sino(s), 2, 3))
add(K + "calculate_curvature", lambda r, s: D(sino(s)[0]))
add(K + "make_inverse_double_wedge_mask", lambda r, s: D(12, 14, 4.0))
add(K + "complex_gradient", lambda r, s: D(sino(s)))
add(K + "calculate_center_metric", lambda r, s: D(
    7.5, sino(s), sino(s)[:, ::-1], np.zeros((12, 15), np.float32),
    np.ones((24, 15), np.float32)))
add(K + "calculate_reconstructable_height", lambda r, s: D(
    0.0, 30.0, 5.0, r.choice(("180", "360"))))
add(K + "calculate_maximum_index", lambda r, s: D(
    0.0, 30.0, 5.0, 0.5, r.choice(("180", "360"))))
add(K + "correlation_metric", lambda r, s: D(sino(s), sino(s + 1)))

# --------------------------------------------------------------- prep.phase
P = "prep.phase."
add(P + "unwrap_phase_based_cosine_transform", lambda r, s: D(
    smooth(s)))
add(P + "unwrap_phase_based_fft", lambda r, s: D(smooth(s)))
add(P + "unwrap_phase_iterative_fft", lambda r, s: D(
    smooth(s), iteration=2))
add(P + "get_quality_map", lambda r, s: D(smooth(s), 3))
add(P + "get_weight_mask", lambda r, s: D(smooth(s)))
add(P + "reconstruct_surface_from_gradient_FC_method", lambda r, s: D(
    sino(s), sino(s + 1), correct_negative=r.random() < 0.5))
add(P + "reconstruct_surface_from_gradient_SCS_method", lambda r, s: D(
    sino(s), sino(s + 1), correct_negative=r.random() < 0.5,
    pad=r.choice((0, 3))))
add(P + "align_image_stacks", lambda r, s: D(
    vol(s), vol(s + 1), [[0.5, 1.0]] * 4, [[0.0, 0.5]] * 4))
add(P + "get_transmission_dark_field_signal", lambda r, s: D(
    vol(s, 3, 13, 12), vol(s + 1, 3, 13, 12),
    np.float32(sino(s + 2, 13, 12) * 2 - 1.5),
    np.float32(sino(s + 3, 13, 12) * 2 - 1.5), 3, margin=3), par=True)
add(P + "get_transmission_dark_field_signal", lambda r, s: D(
    vol(s, 2, 47 + s % 30, 9), vol(s + 1, 2, 47 + s % 30, 9),
    np.float32(sino(s + 2, 47 + s % 30, 9) * 2 - 1.5),
    np.float32(sino(s + 3, 47 + s % 30, 9) * 2 - 1.5), 3,
    margin=r.choice((None, 3))), name="dark_field_tall", par=True,
    ncores=(None, 1, 2, 3))
add(P + "retrieve_phase_based_speckle_tracking", lambda r, s: D(
    vol(s, 3, 12, 13), vol(s + 1, 3, 12, 13),
    find_shift=r.choice(("correl", "umpa")), win_size=3, margin=2,
    dim=r.choice((1, 2)), chunk_size=r.choice((3, 100)), pad=2,
    dark_signal=r.random() < 0.4, norm=False), par=True, heavy=True,
    ncores=(1, 2, 3))
add(P + "find_shift_between_image_stacks", lambda r, s: D(
    vol(s, 2, 14, 15), vol(s + 1, 2, 14, 15), 3, 2,
    [[5, 6, 7], [6, 7, 8]]), par=True)
add(P + "find_shift_between_sample_images", lambda r, s: D(
    vol(s, 2, 14, 15), vol(s + 1, 2, 14, 15), [[0.0, 0.0]] * 2, 3, 2,
    [[5, 6, 7], [6, 7, 8]]), par=True)

# --------------------------------------------------------- rec
Q = "rec.reconstruction."
add(Q + "fbp_reconstruction", lambda r, s: D(
    sino(s, 9, 12), 5.5, filter_name=r.choice(("hann", None, "ramp")),
    gpu=False, ratio=r.choice((1.0, None, 0.8)),
    apply_log=r.random() < 0.7), par=True)
add(Q + "fbp_reconstruction", lambda r, s: D(
    np.moveaxis(vol(s, 3, 9, 12), 0, 1), 5.5, gpu=False),
    name="fbp_stack", par=True)
add(Q + "bpf_reconstruction", lambda r, s: D(
    sino(s, 9, 12), 5.5, gpu=False, apply_log=r.random() < 0.7), par=True)
add(Q + "dfi_reconstruction", lambda r, s: D(
    sino(s, 9, 12), 5.5, filter_name=r.choice(("hann", None)),
    apply_log=r.random() < 0.7), par=True)
add(Q + "dfi_reconstruction", lambda r, s: D(
    np.moveaxis(vol(s, 3, 9, 12), 0, 1), 5.5), name="dfi_stack", par=True)
add(Q + "make_smoothing_window", lambda r, s: D(
    r.choice(("hann", "bartlett", "parzen", "cosine")), 15))
add(Q + "make_2d_ramp_window", lambda r, s: D(9, 12, "hann"))
add(Q + "apply_ramp_filter", lambda r, s: D(
    sino(s, 9, 12), filter_name="hann", pad=r.choice((None, 3))))
add(Q + "make_circular_ramp_window", lambda r, s: D(12, "hann"))
add(Q + "apply_circular_ramp_filter", lambda r, s: D(
    sino(s, 12, 12), pad=r.choice((None, 3))))
add(Q + "back_projection_cpu", lambda r, s: D(
    sino(s, 9, 12), np.float32(np.linspace(0, np.pi, 9)), 5.5,
    edge_pad=r.random() < 0.5))
add(Q + "find_center_based_slice_metric", lambda r, s: D(
    sino(s, 9, 12), r.choice((4.5, 4.13)), 6.5,
    step=r.choice((1.0, 0.57)), radius=1,
    metric=r.choice(("entropy", "sharpness")), method=r.choice((
        "fbp", "dfi")), gpu=False), par=True, heavy=True)
add(Q + "find_center_based_slice_metric", lambda r, s: D(
    sino(s, 9, 12), r.choice((4.5, 4.13)), 6.5,
    step=r.choice((1.0, 0.57)), radius=1,
    metric=r.choice(("entropy", "sharpness")), method="dfi", gpu=False),
    name="slice_metric_dfi", par=True, heavy=True, ncores=(None, 2, 3))
VR = "rec.vertrec."
add(VR + "vertical_reconstruction", lambda r, s: D(
    vol(s, 6, 5, 10), r.choice((3, 5)), 4.5, alpha=r.choice((0.0, 30.0)),
    chunk_size=r.choice((1, 2, 30)), ramp_filter=r.choice((
        "after", "before")), gpu=False, show_progress=False,
    prefer="threads"), par=True)
add(VR + "vertical_reconstruction_multiple", lambda r, s: D(
    vol(s, 6, 5, 10), 3, 5, 4.5, chunk_size=r.choice((2, 30)), gpu=False,
    show_progress=False, prefer="threads"), par=True)
add(VR + "vertical_reconstruction_different_angles", lambda r, s: D(
    vol(s, 6, 5, 10), [3, 5], [0.0, 40.0], 4.5, chunk_size=r.choice((2, 30)),
    gpu=False, show_progress=False, prefer="threads"), par=True)
add(VR + "find_center_vertical_slice", lambda r, s: D(
    vol(s, 6, 5, 10), 5, r.choice((4.0, 4.03)), 5.5,
    step=r.choice((0.5, 0.43)), gpu=False, metric=r.choice((
        "entropy", "sharpness")), show_progress=False, prefer="threads",
    return_metric=True), par=True, heavy=True)

# ----------------------------------------------------------- util.correlation
L = "util.correlation."
add(L + "normalize_image", lambda r, s: D(sino(s)))
add(L + "generate_correlation_map", lambda r, s: D(
    sino(s, 12, 12), sino(s + 1, 5, 5)))
add(L + "locate_peak", lambda r, s: D(
    smooth(s, 7, 7), method=r.choice(("diff", "poly_fit")),
    dim=r.choice((1, 2)) if False else 2))
add(L + "find_shift_based_correlation_map", lambda r, s: D(
    sino(s, 14, 14), sino(s + 1, 14, 14), margin=3,
    method=r.choice(("diff", "poly_fit"))))
add(L + "find_local_shifts", lambda r, s: D(
    vol(s, 3, 11, 12), vol(s + 1, 3, 11, 12), dim=r.choice((1, 2)),
    win_size=3, margin=2, chunk_size=r.choice((2, 100)), norm=False),
    par=True, heavy=True)
add(L + "find_local_shifts", lambda r, s: D(
    sino(s, 11, 12), sino(s + 1, 11, 12), dim=2, win_size=3, margin=2),
    name="find_local_shifts_2d", par=True, heavy=True)
add(L + "find_local_shifts_umpa", lambda r, s: D(
    vol(s, 3, 11, 12), vol(s + 1, 3, 11, 12), win_size=3, margin=2,
    gpu=False, chunk_size=r.choice((2, 100)),
    dark_signal=r.random() < 0.5), par=True, heavy=True)
add(L + "find_global_shift_based_local_shifts", lambda r, s: D(
    sino(s, 16, 17), sino(s + 1, 16, 17), 3, 2,
    list_ij=[[6, 7, 8, 9], [6, 9, 7, 8]], global_value=r.choice((
        "median", "mean", "mixed")), return_list=r.random() < 0.5), par=True)
add(L + "find_global_shift_based_local_shifts", lambda r, s: D(
    sino(s, 16, 17), sino(s + 1, 16, 17), 3, 2, list_ij=points(
        s, r.choice((1, 5, 9, 12, 33, 70, 130))), global_value=r.choice((
            "median", "mean", "mixed")), return_list=r.random() < 0.3),
    name="global_shift_many", par=True)
add(L + "find_global_shift_based_local_shifts", lambda r, s: D(
    sino(s, 20, 22), sino(s + 1, 20, 22), 3, 2, num_point=4,
    return_list=True), name="global_shift_random", par=True, rand=True)

# ------------------------------------------------------------- util.utility
U = "util.utility."
add(U + "sort_forward", lambda r, s: D(sino(s), axis=r.choice((0, 1))))
add(U + "sort_backward", lambda r, s: D(
    sino(s), np.random.RandomState(s).permutation(180).reshape(12, 15),
    axis=r.choice((0, 1))))
add(U + "separate_frequency_component", lambda r, s: D(
    sino(s), axis=r.choice((0, 1))))
add(U + "generate_fitted_image", lambda r, s: D(
    sino(s), 2, axis=r.choice((0, 1)), num_chunk=r.choice((1, 2))))
add(U + "detect_stripe", lambda r, s: D(sino(s, 3, 30)[0], 3.0))
add(U + "make_2d_butterworth_window", lambda r, s: D(12, 14, 4, 2, 3))
add(U + "make_2d_damping_window", lambda r, s: D(12, 14, 2))
add(U + "apply_wavelet_decomposition", lambda r, s: D(
    sino(s, 40, 44), "db2", level=1))
add(U + "apply_wavelet_reconstruction", lambda r, s: D(
    [sino(s, 12, 12)] + [tuple(sino(s + i, 12, 12) for i in (1, 2, 3))],
    "db1", ignore_level=r.choice((None, 1))))
add(U + "apply_filter_to_wavelet_component", lambda r, s: D(
    [sino(s, 12, 12)] + [tuple(sino(s + i, 12, 12) for i in (1, 2, 3))],
    level=r.choice((None, 1)), order=r.choice((0, 1, 2)), para=[(1, 3)]))
add(U + "interpolate_inside_stripe", lambda r, s: D(
    sino(s), np.float32(np.arange(15) % 5 == 2), kind=r.choice((
        "linear",))))
add(U + "rectangular_from_polar", lambda r, s: D(12, 12, 10, 14))
add(U + "polar_from_rectangular", lambda r, s: D(10, 14, 12, 12))
add(U + "transform_slice_forward", lambda r, s: D(sino(s, 13, 13)))
add(U + "transform_slice_backward", lambda r, s: D(sino(s, 13, 13)))
add(U + "mapping", lambda r, s: D(
    sino(s), np.float32(sino(s + 1) * 5), np.float32(sino(s + 2) * 5),
    order=r.choice((0, 1))))
add(U + "make_2d_gaussian_window", lambda r, s: D(12, 14, 2, 3))
add(U + "apply_gaussian_filter", lambda r, s: D(
    sino(s), 3, 4, pad=r.choice((None, 3))))
add(U + "apply_regularization_filter", lambda r, s: D(
    sino(s), 0.01, axis=r.choice((0, 1))), par=True)
add(U + "transform_1d_window_to_2d", lambda r, s: D(sino(s, 3, 13)[0]))
add(U + "detect_sample", lambda r, s: D(
    sino(s, 12, 20), sino_type=r.choice(("180", "360"))))
add(U + "make_circle_mask", lambda r, s: D(13, 0.9))
add(U + "generate_spiral_positions", lambda r, s: D(2, 6, 20, 22))
add(U + "parallel_process_slices", lambda r, s: D(
    vol(s), __import__("dst.methods", fromlist=["x"]).stats_mark, [2.0],
    axis=r.choice((0, 1, 2)), prefer=r.choice(("threads", "processes"))),
    par=True)

add(U + "fix_non_sample_areas", lambda r, s: D(
    np.float64(np.random.RandomState(s).randint(0, 3, (4, 3, 2))),
    direction=r.choice(("horizontal", "vertical"))))
add(U + "locate_slice", lambda r, s: D(
    9 + s % 9, 10, np.float64([[[2, 1]], [[3, 1]]])))
add(U + "locate_slice_chunk", lambda r, s: D(
    9, 12 + s % 9, 10, np.float64([[[2, 1]], [[3, 1]]])))
add(U + "calculate_regularization_coefficient", lambda r, s: D(12, 0.01))
add(U + "check_level", lambda r, s: D([1, 2], 3))

# ------------------------------------------------------------- post
T = "post.postprocessing."
add(T + "get_statistical_information", lambda r, s: D(
    sino(s), percentile=(5, 95), denoise=r.random() < 0.5))
add(T + "downsample", lambda r, s: D(sino(s), (2, 3), method=r.choice((
    "mean", "median", "max", "min"))))
add(T + "rescale", lambda r, s: D(sino(s), nbit=r.choice((8, 16)),
                                  minmax=r.choice((None, (0.4, 1.1)))))
add(T + "downsample_dataset", lambda r, s: D(vol(s), None, 2))
add(T + "rescale_dataset", lambda r, s: D(vol(s), None, nbit=8))
add(T + "get_statistical_information_dataset", lambda r, s: D(
    vol(s), skip=1))
add(T + "remove_ring_based_fft", lambda r, s: D(sino(s, 14, 14), 4, 4, 1))
add(T + "remove_ring_based_wavelet_fft", lambda r, s: D(
    sino(s, 40, 40), 1, 1, "db2"))

# ----------------------------------------------------------- util.calibration
B = "util.calibration."


def dots(s, n=40):
    n *= min(5, BIG[0])
    r = np.random.RandomState(s % (1 << 30))
    m = np.ones((n, n), np.float32)
    for y in range(6, n - 4, 10):
        for x in range(6, n - 4, 10):
            m[y - 2:y + 2, x - 2:x + 2] = 0.2
    return m + 0.01 * r.rand(n, n).astype(np.float32)


add(B + "normalize_background", lambda r, s: D(sino(s), 5))
add(B + "normalize_background_based_fft", lambda r, s: D(
    sino(s), 5, pad=4))
add(B + "invert_dot_contrast", lambda r, s: D(dots(s)))
add(B + "calculate_threshold", lambda r, s: D(dots(s)))
add(B + "binarize_image", lambda r, s: D(dots(s), bgr="bright"))
add(B + "get_dot_size", lambda r, s: D(np.float32(dots(s) < 0.5)))
add(B + "calculate_distance", lambda r, s: D(
    np.roll(dots(s) * 0 + 1 - (np.hypot(*np.ogrid[-20:20, -20:20]) < 6), 2, 0)
    .astype(np.float32),
    np.roll(dots(s) * 0 + 1 - (np.hypot(*np.ogrid[-20:20, -20:20]) < 6), 3, 1)
    .astype(np.float32), denoise=False))
add(B + "fit_points_to_ellipse", lambda r, s: D(
    np.float64(5 * np.cos(np.linspace(0, 6, 12)) + 8),
    np.float64(2 * np.sin(np.linspace(0, 6, 12)) + 9 + s % 3)))
add(B + "find_tilt_roll", lambda r, s: D(
    np.float64(5 * np.cos(np.linspace(0, 6, 12)) + 8),
    np.float64(2 * np.sin(np.linspace(0, 6, 12)) + 9 + s % 3),
    method=r.choice(("ellipse", "linear"))))

# ----------------------------------------------------------- util.simulation
S = "util.simulation."
add(S + "make_elliptic_mask", lambda r, s: D(16, 0.1, (0.5, 0.3), 30.0))
add(S + "make_rectangular_mask", lambda r, s: D(16, 0.1, (0.5, 0.3), 30.0))
add(S + "make_triangular_mask", lambda r, s: D(16, 0.1, 0.5, 30.0))
add(S + "make_line_target", lambda r, s: D(64))
add(S + "make_face_phantom", lambda r, s: D(24))
add(S + "make_sinogram", lambda r, s: D(
    sino(s, 12, 12), np.linspace(0, np.pi, 5)))
add(S + "convert_to_Xray_image", lambda r, s: D(sino(s)))
add(S + "add_noise", lambda r, s: D(sino(s), 0.1), rand=True)
add(S + "add_stripe_artifact", lambda r, s: D(
    sino(s, 12, 20), 3, 7, stripe_type=r.choice(("partial", "full", "dead"))))
add(S + "add_stripe_artifact", lambda r, s: D(
    sino(s, 12, 20), 3, 7, stripe_type="fluctuating"),
    name="stripe_fluctuating", rand=True)
add(S + "add_background_fluctuation", lambda r, s: D(sino(s), 0.1),
    rand=True)


# ------------------------------------------------------------------- helpers
def close(got, want, what, cls="wrong-result", site="", rtol=1e-5):
    """Structural comparison with a small tolerance for floats."""
    from dst.common import Violation, expect_close
    if isinstance(want, (list, tuple)):
        if not isinstance(got, (list, tuple)) or len(got) != len(want):
            raise Violation(cls, "%s: %r parts, expected %d" % (
                what, len(got) if hasattr(got, "__len__") else got,
                len(want)), site)
        for k, (g, w) in enumerate(zip(got, want)):
            close(g, w, "%s[%d]" % (what, k), cls, site, rtol)
        return
    if want is None or isinstance(want, str):
        if got != want:
            raise Violation(cls, "%s: %r, expected %r" % (what, got, want),
                            site)
        return
    if np.asarray(want).dtype.kind in "OUSb":
        if not np.array_equal(got, want):
            raise Violation(cls, what + " differs", site)
        return
    g, w = np.asarray(got), np.asarray(want)
    if w.dtype.kind == "c":
        expect_close(g.real, w.real, what, rtol, 1e-6, cls, site)
        expect_close(g.imag, w.imag, what, rtol, 1e-6, cls, site)
        return
    expect_close(g, w, what, rtol, 1e-6, cls, site)


def warm(base):
    """Compile every kernel once, before the children are forked."""
    rng = random.Random(0)
    from dst.sim import _freeze
    for f in FUNCS.values():
        jit = f.par and f.module.split(".")[-1] in (
            "correlation", "phase", "vertrec", "reconstruction")
        for n in range(6 if jit else 1):
            a, k = f.args(dict(f.gen(rng), ncore=1))
            if n >= 3:
                # process workers see read-only memory maps
                _freeze(a, 1)
                _freeze(k, 1)
            try:
                f.fn()(*a, **k)
            except Exception:
                pass
    def lay(shape, kind):
        x = np.ones(shape, np.float32)
        if "A" in kind:
            x = np.ones([n + 2 for n in shape], np.float32)[
                tuple(slice(1, -1) for _ in shape)]
        if "r" in kind:
            x.flags.writeable = False
        return x
    import algotom.util.correlation as corl
    for d in ((), (2,)):
        for r, q in (("C", "C"), ("A", "A"), ("rC", "rC"), ("rA", "rA"),
                     ("C", "A"), ("rC", "rA")):
            try:
                corl.generate_correlation_map(lay(d + (8, 8), r),
                                              lay(d + (3, 3), q))
            except Exception:
                pass
    for t in ("correl", "umpa"):
        for dim in (1, 2):
            try:
                import algotom.prep.phase as ph
                ph.retrieve_phase_based_speckle_tracking(
                    vol(1, 3, 12, 13), vol(2, 3, 12, 13), find_shift=t,
                    win_size=3, margin=2, dim=dim, pad=2, ncore=1,
                    dark_signal=True)
            except Exception:
                pass
    import algotom.rec.reconstruction as rec
    for m in ("fbp", "dfi"):
        for dt in (np.float32, np.float64):
            x = np.ones((4, 8), dt)
            getattr(rec, m + "_reconstruction")(
                x, 3.5, ncore=1, **({"gpu": False} if m == "fbp" else {}))
