"""Assumed contract of stratify.interpolate (linear): the coordinate rises along the axis, or falls with rising=False; beyond its ends
nothing, or with EXTRAPOLATE_NEAREST the value at the end."""
import numpy as np

EXTRAPOLATE_NAN, EXTRAPOLATE_NEAREST = "nan", "nearest"


def interpolate(z_target_levels, z_src, fz_src, axis=0, rising=True, extrapolation=EXTRAPOLATE_NAN):
    """values of fz_src where z_src reaches each target, linear between neighbouring levels, missing outside the levels"""
    if axis != 0:
        raise NotImplementedError("stratify.interpolate")
    z_src = np.asarray(z_src)
    if fz_src.ndim == 1:
        fz_src = np.broadcast_to(fz_src.reshape((-1,) + (1,) * (z_src.ndim - 1)), z_src.shape)
    out = []
    last = z_src.shape[0] - 1
    for q in range(len(z_target_levels)):
        t = z_target_levels[q]
        r = np.full(z_src.shape[1:], np.nan, dtype=fz_src.dtype)
        if extrapolation == EXTRAPOLATE_NEAREST:
            before = z_src[0] > t if rising else z_src[0] < t
            after = z_src[last] < t if rising else z_src[last] > t
            r = np.where(before, fz_src[0], np.where(after, fz_src[last], r))
        for n in range(last):
            a, b = z_src[n], z_src[n + 1]
            inside = (a <= t) & (t <= b) & (a < b) if rising else (a >= t) & (t >= b) & (a > b)
            w = (t - a) / np.where(inside, b - a, 1.0)
            r = np.where(inside, fz_src[n] * (1 - w) + fz_src[n + 1] * w, r)
        out.append(r)
    return np.stack(out)
