"""All 1-d, 2-d and 3-d shapes up to a bound, all whole factors per axis, with an impulse in every cell, a ramp and a constant;
enlarging is compared with cell repetition, reducing with block means computed in plain Python, enlarge-reduce with identity, smoothing with conservation
of the mean and of constants."""
import itertools
import math

import numpy as np

from mc.core import check, close, same
from raytools import translate as tr

RULE = "one case per (shape, factors, data pattern); non-trivial: at least one factor above one, or a filter"


def patterns(shape, full):
    n = int(np.prod(shape))
    out = [("ramp", np.arange(n, dtype=float).reshape(shape) * 1.5 - 2), ("const", np.full(shape, 3.25))]
    for i in (range(n) if full else sorted({0, n // 2, n - 1})):
        a = np.zeros(n)
        a[i] = 1
        out.append((f"impulse{i}", a.reshape(shape)))
    return out


def grow(a, f):
    for i, k in enumerate(f):
        a = np.stack([a] * k, axis=i + 1).reshape(a.shape[:i] + (a.shape[i] * k,) + a.shape[i + 1:])
    return a


def means(a, f):
    out = np.zeros([s // k for s, k in zip(a.shape, f)])
    for ix in np.ndindex(*out.shape):
        sl = tuple(slice(i * k, (i + 1) * k) for i, k in zip(ix, f))
        blk = a[sl].ravel().tolist()
        out[ix] = sum(blk) / len(blk)
    return out


def smooth(a, sig):
    """separable sampled gaussian cut at 4 sigma, edges reflected"""
    for ax, s in enumerate(sig):
        if s <= 0:
            continue
        r = int(4 * s + .5)
        w = [math.exp(-.5 * (k / s) ** 2) for k in range(-r, r + 1)]
        t = sum(w)
        n = a.shape[ax]
        m = np.zeros((n, n))
        for i in range(n):
            for k in range(-r, r + 1):
                j = (i + k) % (2 * n)
                m[i, j if j < n else 2 * n - 1 - j] += w[k + r] / t
        a = np.moveaxis(np.tensordot(m, a, (1, ax)), 0, ax)
    return a


def box(a, r):
    """running mean over r cells, edges reflected, even widths reach further back"""
    for ax in range(a.ndim):
        n = a.shape[ax]
        m = np.zeros((n, n))
        for i in range(n):
            for k in range(-(r // 2), r - r // 2):
                j = (i + k) % (2 * n)
                m[i, j if j < n else 2 * n - 1 - j] += 1 / r
        a = np.moveaxis(np.tensordot(m, a, (1, ax)), 0, ax)
    return a


def g_updown(ctx, nd, top, fmax, full):
    for shape in itertools.product(range(1, top + 1), repeat=nd):
        for f in itertools.product(range(1, fmax + 1), repeat=nd):
            if max(f) == 1:
                continue
            big = tuple(s * k for s, k in zip(shape, f))
            for nm, a in patterns(shape, full):
                def up():
                    b0 = a.copy()
                    u = tr.resample(a, big, gauss=False)
                    same(u, grow(a, f), "enlarging repeats cells")
                    close(tr.resample(u, shape), a, atol=1e-9, msg="reducing an enlarged array")
                    g = tr.resample(a, big)
                    close(g, smooth(u, [k - 1 for k in f]), atol=1e-9, msg="smoothed by the scale less one along each axis")
                    close(tr.resample(a, big, radius=.8), smooth(u, [.8] * nd), atol=1e-9, msg="given radius")
                    close(tr.resample(a, big, radius=0), u, atol=1e-12, msg="radius of zero")
                    close(tr.resample(a, big, radius=(.5,) * nd), smooth(u, [.5] * nd), atol=1e-9, msg="given radii")
                    close(np.mean(g), np.mean(a), atol=1e-9, msg="smoothed enlarging keeps the mean")
                    check(g.shape == big, "shape")
                    check((g >= a.min() - 1e-9) & (g <= a.max() + 1e-9), "smoothing left the data range")
                    if nm == "const":
                        close(g, np.full(big, a.flat[0]), atol=1e-9, msg="constant not kept")
                    same(a, b0, "input changed")
                ctx.run(["up", shape, f, nm], up)
            for nm, a in patterns(big, full and np.prod(big) <= 64):
                def down():
                    close(tr.resample(a, shape), means(a, f), atol=1e-9, msg="block means")
                    close(tr.resample(a, shape, gauss=False), means(a, f), atol=1e-9, msg="block means (no gauss)")
                    close(np.mean(tr.resample(a, shape)), np.mean(a), atol=1e-9, msg="mean")
                ctx.run(["down", shape, f, nm], down)


def g_keep(ctx, top):
    for nd in (1, 2, 3):
        for shape in itertools.product(range(1, top + 1), repeat=nd):
            for nm, a in patterns(shape, False):
                def go():
                    same(tr.resample(a), a, "same shape, no radius")
                    same(tr.resample(a, shape), a, "same shape given, no radius")
                    same(tr.resample(a, gauss=False), a, "same shape, no radius")
                    for r in (.5, 1, 2, 3, 1.7):
                        g = tr.resample(a, radius=r)
                        check(g.shape == shape, "shape")
                        close(g, smooth(a, [r] * nd), atol=1e-9, msg="gaussian of the given radius")
                        close(np.sum(g), np.sum(a), atol=1e-9, msg="gaussian keeps the sum")
                        if nm == "const":
                            close(g, a, atol=1e-9, msg="constant not kept")
                        if r >= 1:
                            u = tr.resample(a, shape, gauss=False, radius=r)
                            check((u >= a.min() - 1e-9) & (u <= a.max() + 1e-9), "box filter range")
                            close(u, box(a, int(r)), atol=1e-9, msg="box filter of the given width")
                            if nm == "const":
                                close(u, a, atol=1e-9, msg="constant not kept")
                ctx.run(["keep", shape, nm], go)


def g_factors(ctx, top):
    """every factor up to top along one axis (rounding of the ratio)"""
    for k in range(2, top + 1):
        for s in (1, 2, 3):
            def go():
                a = np.arange(s * 2, dtype=float).reshape(s, 2)
                u = tr.resample(a, (s * k, 2), gauss=False)
                same(u, grow(a, (k, 1)), "repeat")
                close(tr.resample(u, (s, 2)), a, atol=1e-9, msg="block mean")
                v = np.tile(np.arange(k, dtype=float), s)
                close(tr.resample(v, (s,)), np.full(s, (k - 1) / 2), atol=1e-8 * k, msg="block mean of a ramp")
            ctx.run(["factor", k, s], go)


def groups(tier):
    q = tier == "quick"
    return [("1d", g_updown, 1, 6 if q else 12, 5 if q else 8, True), ("2d", g_updown, 2, 3 if q else 5, 3 if q else 4, True),
            ("3d", g_updown, 3, 2 if q else 3, 2 if q else 3, False), ("keep", g_keep, 3 if q else 5),
            ("factors", g_factors, 200 if q else 1200)]
