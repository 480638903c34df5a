"""Per-slice methods a user might hand to the library (traced: every line is
a possible pre-emption point)."""
import math

import numpy as np


def affine(mat, a=1.0, b=0.0):
    rows = np.arange(mat.shape[0], dtype=np.float64)[:, None]
    out = mat * a
    out = out + b
    out = out + 0.25 * rows
    return out


def stats_mark(mat, a=1.0, scale=1.0):
    # exactly rounded: the memory layout of the slice does not matter
    s = math.fsum(float(v) for v in np.ravel(mat))
    m = float(np.max(mat))
    out = np.empty(mat.shape, dtype=np.float32)
    for i in range(mat.shape[0]):
        out[i] = mat[i] * scale + a * s
    out[0, 0] = m
    return out


def crop_mark(mat, a=1, b=1):
    a = int(a)
    out = np.array(mat[a:, b:], dtype=np.float64)
    out[-1, -1] += 1.0
    return out


def transpose_mark(mat, a=2.0):
    out = np.transpose(mat) * a
    return out + np.arange(out.shape[1])


def cumulative(mat, a=1.0, along=0):
    acc = np.zeros(mat.shape[1 - along], dtype=np.float64)
    out = np.zeros(mat.shape, dtype=np.float64)
    for i in range(mat.shape[along]):
        row = mat[i] if along == 0 else mat[:, i]
        acc = acc * 0.5 + row * a
        if along == 0:
            out[i] = acc
        else:
            out[:, i] = acc
    return out


METHODS = {f.__name__: f for f in (affine, stats_mark, crop_mark,
                                   transpose_mark, cumulative)}


def weighted_metric(recon, a=1.0, power=2):
    n = recon.shape[0] * recon.shape[1]
    w = 1.0 + np.arange(n, dtype=np.float64).reshape(recon.shape) % 7
    tot = np.sum(np.abs(recon) ** power * w)
    tot = tot / n
    return float(a * tot)
