"""Optional arguments of the functions in dst.funcs, drawn on top of the
arguments of an entry.  EXTRA[entry] = {keyword: f(r, s, a, k) -> value}."""
import inspect

import numpy as np

from dst.common import data


def arr(shape, s, lo=0.25, hi=1.0, dtype=np.float32):
    return dtype(lo + (hi - lo) * data(tuple(shape), s))


def one(*vals):
    return lambda r, s, a, k: r.choice(vals)


def like(i, mul=(1, 1), add=(0, 0), **kw):
    def f(r, s, a, k):
        sh = np.shape(a[i])[-2:]
        return arr([n * m + d for n, m, d in zip(sh, mul, add)], s + 91, **kw)
    return f


MEDIAN1 = {"method": "median_filter", "para1": (1, 3)}
B01 = one(True, False)
DROP = {"ratio": one(0.4, 0.8), "hor_drop": one(1, 2), "ver_drop": one(1, 2)}
OVER = {"denoise": one(False), "norm": one(True), "use_overlap": one(True)}
OPT = {"options": lambda r, s, a, k: dict(r.choice((
    {"method": "gaussian_filter", "para1": (1, 3)}, MEDIAN1)))}


def metric_fn(mat, power=1.0, **kw):
    return float(np.mean(np.abs(np.asarray(mat, np.float64)) ** power))


def angles(n):
    return lambda r, s, a, k: np.float32(np.sort(
        data((n,), s + 5) * 3.0)) if r.random() < 0.7 else \
        np.linspace(0, np.pi, n)


def ang_sino(r, s, a, k):
    return angles(np.shape(a[0])[0])(r, s, a, k)


VERT = {"flat_field": like(0, lo=1.0, hi=2.0),
        "dark_field": like(0, lo=0.0, hi=0.1),
        "angles": lambda r, s, a, k: np.float64(
            np.linspace(0, np.pi, np.shape(a[0])[0])),
        "crop": one((1, 0, 0, 0), (0, 0, 1, 2)),
        "proj_start": one(1, 2), "proj_stop": one(5, -1),
        "filter_name": one("ramp", "cosine", None),
        "pad": one(0, 3), "pad_mode": one("reflect", "linear_ramp"),
        "apply_log": one(False), "masking": one(True)}
REC = {"angles": ang_sino, "ratio": one(0.7, None),
       "pad_mode": one("reflect", "linear_ramp")}
EXTRA = {
    "remove_ring_based_fft": {"sort": one(True)},
    "remove_ring_based_wavelet_fft": {"size": one(2), "sort": one(True)},
    "coarse_search_cor": DROP, "find_center_vo": DROP,
    "fine_search_cor": DROP,
    "find_center_360": OVER, "find_overlap": {
        "denoise": one(False), "use_overlap": one(True)},
    "find_overlap_multiple": OVER, "find_center_projection": dict(
        OVER, flip=one(False), start_row=one(0, 3)),
    "find_center_based_phase_correlation": {"flip": one(False),
                                            "gradient": one(False)},
    "make_inverse_double_wedge_mask": {"hor_drop": one(1),
                                       "ver_drop": one(1, 2)},
    "convert_sinogram_360_to_180": {"norm": one(False),
                                    "total_width": one(25, 30)},
    "stitch_image": {"total_width": one(28, 33),
                     "wei_mat1 wei_mat2": lambda r, s, a, k: (
                         arr(np.shape(a[0]), s + 3),
                         arr(np.shape(a[1]), s + 4))},
    "join_image": {"total_width": one(35, 40)},
    "join_image_multiple": {"norm": one(False), "total_width": one(55)},
    "stitch_image_multiple": {"norm": one(False), "total_width": one(45)},
    "generate_sinogram_helical_scan": {
        "mask": lambda r, s, a, k: np.float32(
            arr(np.shape(a[1])[-2:], s, 0.0, 1.0) > 0.85),
        "angles": lambda r, s, a, k: np.linspace(
            0, 300.0, np.shape(a[1])[0]),
        "crop": one((0, 0, 1, 1))},
    "double_wedge_filter": {"ratio": one(0.8, 1.1)},
    "fresnel_filter": {"window": lambda r, s, a, k: arr(
        np.shape(a[0]), s, 1.0, 3.0)},
    "align_image_stacks": {"mode": one("nearest", "constant")},
    "find_shift_between_image_stacks": {
        "global_value": one("median", "mean"), "sub_pixel": one(False),
        "method": one("poly_fit"), "norm": one(True)},
    "find_shift_between_sample_images": {
        "global_value": one("mixed", "mean"), "sub_pixel": one(False),
        "method": one("poly_fit"), "norm": one(True)},
    "get_weight_mask": {"snr": one(0.5, 3.0)},
    "reconstruct_surface_from_gradient_FC_method": {
        "window": lambda r, s, a, k: [
            arr([2 * n for n in np.shape(a[0])], s + j) for j in range(3)]},
    "reconstruct_surface_from_gradient_SCS_method": {
        "pad_mode": one("edge", "reflect")},
    "retrieve_phase_based_speckle_tracking": {
        "filter_name": one("hann"), "method": one("poly_fit"),
        "surf_method": one("FC"), "correct_negative": one(False),
        "pad_mode": one("edge"), "return_shift": one(True),
        "norm_global": one(True)},
    "unwrap_phase_based_cosine_transform": {
        "window": lambda r, s, a, k: arr(np.shape(a[0]), s, 1.0, 2.0)},
    "unwrap_phase_based_fft": {
        "win_for": like(0, (2, 2)), "win_back": like(0, (2, 2))},
    "unwrap_phase_iterative_fft": {
        "win_for": like(0, (2, 2)), "win_back": like(0, (2, 2)),
        "weight_map": lambda r, s, a, k: arr(
            np.shape(a[0]), s, 0.0, r.choice((0.9, 1.0, 3.0)))},
    "remove_all_stripe": {"snr": one(2.0), "drop_ratio": one(0.2)},
    "remove_dead_stripe": {"snr": one(2.0), "smooth_strength": one(3)},
    "remove_large_stripe": dict(OPT, snr=one(2.0), drop_ratio=one(0.2)),
    "remove_stripe_based_2d_filtering_sorting": OPT,
    "remove_stripe_based_filtering": OPT,
    "remove_stripe_based_fitting": dict(OPT, order=one(1, 3)),
    "remove_stripe_based_interpolation": dict(
        OPT, snr=one(2.0), drop_ratio=one(0.2), kind=one("cubic")),
    "remove_stripe_based_normalization": {"options": lambda r, s, a, k: {
        "method": "gaussian_filter", "para1": r.choice((1, 3))}},
    "remove_stripe_based_sorting": OPT,
    "remove_stripe_based_wavelet_fft": {"size": one(2),
                                        "window_name": one("butterworth"),
                                        "options": OPT["options"]},
    "apply_circular_ramp_filter": {
        "pad_mode": one("reflect"), "filter_name": one("hann"),
        "ramp_win": lambda r, s, a, k: arr(
            [n + 2 * (k.get("pad") or 0) for n in np.shape(a[0])], s)},
    "apply_ramp_filter": {
        "pad_mode": one("reflect"),
        "ramp_win": lambda r, s, a, k: arr(
            (np.shape(a[0])[0], np.shape(a[0])[1] + 2 * (k.get("pad") or 3)),
            s)},
    "fbp_reconstruction": dict(
        {x: REC[x] for x in ("angles", "pad_mode")}, pad=one(0, 3)),
    "fbp_stack": dict(REC, pad=one(0, 3), filter_name=one("cosine", None),
                      apply_log=one(False)),
    "bpf_reconstruction": dict(REC, pad=one(0, 3),
                               filter_name=one("cosine", None)),
    "dfi_reconstruction": dict(REC, pad_rate=one(0.5, 1.0)),
    "dfi_stack": dict(REC, pad_rate=one(0.5), filter_name=one(None),
                      apply_log=one(False)),
    "slice_metric_dfi": {"zoom": one(0.5), "angles": ang_sino,
                         "ratio": one(0.8), "apply_log": one(False),
                         "sigma": one(0, 1), "invert_metric": one(True),
                         "metric_function power": lambda r, s, a, k: (
                             metric_fn, r.choice((1.0, 2.0)))},
    "find_center_vertical_slice": {
        "alpha": one(20.0), "angles": VERT["angles"],
        "chunk_size": one(1, 2), "ramp_filter": one("before"),
        "sigma": one(0, 1), "apply_log": one(False), "masking": one(False),
        "invert_metric": one(True), "metric_function power": lambda r, s, a,
        k: (metric_fn, r.choice((1.0, 2.0)))},
    "vertical_reconstruction": VERT,
    "vertical_reconstruction_multiple": dict(
        VERT, alpha=one(30.0), step_index=one(2), ramp_filter=one("before")),
    "vertical_reconstruction_different_angles": dict(
        VERT, ramp_filter=one("before")),
    "binarize_image": {"threshold": one(0.4, 0.6), "norm": one(True),
                       "denoise": one(False), "invert": one(False)},
    "normalize_background_based_fft": {"sigma": one(2), "mode": one("edge")},
    "get_dot_size": {"size_opt": one("mean", "median", "min")},
    "find_global_shift_based_local_shifts": {
        "sub_pixel": one(False), "method": one("poly_fit"), "norm": one(True)},
    "find_local_shifts": {"method": one("poly_fit"), "norm_global": one(True)},
    "find_local_shifts_umpa": {"method": one("poly_fit"),
                               "filter_name": one("hann")},
    "find_shift_based_correlation_map": {"sub_pixel": one(False),
                                         "axis": one(0, 1)},
    "locate_peak": {"sub_pixel": one(False), "max_peak": one(False)},
    "convert_to_Xray_image": {"global_max": one(2.0, 5.0)},
    "make_sinogram": {"pad_rate": one(0.3), "pad_mode": one("constant")},
    "apply_gaussian_filter": {"mode": one("edge", "reflect")},
    "generate_spiral_positions": {"spiral_shape": one(0.5)},
    "interpolate_inside_stripe": {"kind": one("cubic")},
    "make_2d_damping_window": {"window_name": one("butterworth")},
    "mapping": {"mode": one("nearest", "constant")},
    "separate_frequency_component": {
        "window": lambda r, s, a, k: {"name": "gaussian", "sigma": 2}
        if r.random() < 0.5 else arr(
            [np.shape(a[0])[0 if k.get("axis") == 0 else 1]], s)},
    "transform_1d_window_to_2d": {"order": one(0), "mode": one("nearest")},
    "transform_slice_forward": {"coord_mat": lambda r, s, a, k: tuple(
        arr(np.shape(a[0]), s + j, 0, 11) for j in (1, 2))},
    "transform_slice_backward": {"coord_mat": lambda r, s, a, k: tuple(
        arr(np.shape(a[0]), s + j, 0, 11) for j in (1, 2))},
    "upsample_sinogram": {},
    "add_noise": {},
}


def draw(name, fn, r, s, a, k):
    """Keyword arguments to add to a call of the entry (maybe none)."""
    tab = EXTRA.get(name)
    if not tab or r.random() < 0.4:
        return {}
    out = {}
    rate = r.choice((0.15, 0.35, 0.7))
    taken = list(inspect.signature(fn).parameters)[:len(a)]
    for key in sorted(tab):
        if r.random() < rate and key not in taken:
            if key == "options":
                out["option1"] = tab[key](r, s, a, k)
                continue
            v = tab[key](r, s, a, dict(k, **out))
            ks = key.split()
            out.update(zip(ks, v) if len(ks) > 1 else [(key, v)])
    if "angles" in out:
        out.pop("proj_start", None)
        out.pop("proj_stop", None)
    return out
