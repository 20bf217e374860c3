"""Alignment is linear in the image, so the images of the two pixel coordinates reveal for every output pixel the exact source position it was taken from: for
every resolution, rotation angle, new centre (every half-pixel position in the disk), start/end pair (every pair of a lattice) and order these must equal the
reference geometry (interpolation of the coordinate images is exact). Single-pixel impulses then reveal the interpolation kernel, index-coded images the nearest
pixel; quarter turns must permute pixels exactly, four of them and opposite rotations restore the image, a zero rotation returns it; channels are independent, the
fill value is used outside the image only, and the input is not changed. Positive angles turn the content counter-clockwise."""
import math

import numpy as np

from mc import ref
from mc.core import check, close, fail, same
from checks.c29 import bilinear, coded, forms, from_source
from raytools import imagetools

RULE = "one case per (resolution, angle, centre, order); trivial for the identity"

RV = ref.View((0, 1, 0), 180)


def turn(v, ang):
    """directions in the source for directions in the image rotated by ang"""
    c, s = math.cos(math.radians(ang)), math.sin(math.radians(ang))
    return np.stack((c * v[:, 0] + s * v[:, 2], v[:, 1], -s * v[:, 0] + c * v[:, 2]), 1)


def aim(v, a, b):
    """directions with the same coordinates in the frame of b as v has in the frame of a"""
    return (v @ ref.basis(a).T) @ ref.basis(b)


def source(res, ang, center, first):
    """source position (pixels) of every output pixel and the mask of pixels whose output and source both lie in the disk"""
    pix = RV.pixels(res)
    v = RV.ray(pix / res)
    ok = RV.angle(v) < RV.H * (1 - 1e-9)
    first = first and ang != 0
    if not first and ang != 0:
        v = turn(v, ang)
    if center is not None:
        c = RV.ray(np.reshape(center, (-1, 2)) / res)
        if first:
            # the start or centre moved with the content
            c[0:1] = turn(c[0:1], -ang)
        v = aim(v, c[1] if len(c) == 2 else (0, 1, 0), c[0])
    if first:
        v = turn(v, ang)
    ok &= RV.angle(v) < RV.H * (1 - 1e-6)
    return RV.xy(v) * res, ok


def rotate(a, ang, center=None, first=True, **kw):
    return np.asarray(imagetools.array_rotate(a, ang, center=center, rotate_first=first, **kw))


def steep(center, res, ang, first):
    """frames straight up or down have no unique rotation: leave them out"""
    if center is None:
        return False
    c = RV.ray(np.reshape(center, (-1, 2)) / res)
    if first and ang != 0:
        c[0:1] = turn(c[0:1], -ang)
    return bool(np.any(np.hypot(c[:, 0], c[:, 1]) < 1e-6))


def g_geo(ctx, ress, angs, kind, part, parts):
    for res in ress:
        g = np.mgrid[0:res, 0:res] + .5
        if kind == "rotate":
            cs = [None]
        elif kind == "center":
            e = np.arange(0, res + .25, .5 if res < 7 else 1)
            cs = [(x, y) for x in e for y in e if math.hypot(x / res - .5, y / res - .5) < .45]
        else:
            e = [x for x in np.arange(.5, res, 1)][:: max(1, res // 4)] + [res / 2]
            p = [(x, y) for x in e for y in e if math.hypot(x / res - .5, y / res - .5) < .4]
            cs = [a + b for a in p for b in p]
        for n, c in enumerate(cs):
            if n % parts != part:
                continue
            for ang in angs:
                for first in ((True,) if c is None or ang == 0 else (True, False)):
                    if steep(c, res, ang, first):
                        continue

                    def go():
                        pos, ok = source(res, ang, c, first)
                        ctx.bulk(ok.sum())
                        if not first and ang != 0 and c is not None:
                            # interpolated twice: the centred image, rotated
                            for ax in (0, 1):
                                a = g[ax].copy()
                                two = rotate(rotate(a, 0, c), ang)
                                out = rotate(a, ang, c, False)
                                ins = ok & np.isfinite(two.ravel()) & np.isfinite(out.ravel())
                                close(out.ravel()[ins], two.ravel()[ins], 1e-6 * res, 0, f"centred and then rotated, coordinate {ax}")
                                for near in (True, False):
                                    fl = dict(fill_value=-50., nearest=near)
                                    close(rotate(a, ang, c, False, **fl), rotate(rotate(a, 0, c, **fl), ang, **fl), 1e-6 * res, 0, "centred and then rotated, with fill value")
                                same(a, g[ax], "the input image was changed")
                                # pixels well inside: the composed geometry up to the second interpolation
                                v = RV.ray((RV.pixels(res)) / res)
                                deep = ok & (RV.angle(v) < RV.H * (1 - 3. / res)) & (RV.angle(RV.ray(pos / res)) < RV.H * (1 - 3. / res))
                                close(out.ravel()[deep], pos[deep, ax], .35, 0, f"source coordinate {ax} of the output pixels")
                            return
                        for ax in (0, 1):
                            a = g[ax].copy()
                            out = rotate(a, ang, c, first)
                            same(out.shape, (res, res), "shape")
                            same(a, g[ax], "the input image was changed")
                            close(out.ravel()[ok], pos[ok, ax], 1e-6 * res, 0, f"source coordinate {ax} of the output pixels")
                        k = rotate(np.full((res, res), 2.5), ang, c, first)
                        close(k.ravel(), np.full(res * res, 2.5), 1e-9, 0, "constant image")
                        if first or ang == 0:
                            nn = rotate(coded((res, res)), ang, c, first, nearest=True)
                            check(np.isin(nn, coded((res, res))), "nearest interpolation mixes pixels")
                            src = coded((res, res))
                            keep = np.where(ok.reshape(res, res), nn, 0)
                            from_source(keep, src, pos, ok, "nearest")
                    ctx.run([res, c, ang, first], go)


def g_perm(ctx, ress):
    for res in ress:
        src = coded((res, res))
        disk = np.hypot(*np.mgrid[-res / 2 + .5:res / 2, -res / 2 + .5:res / 2]) < res / 2

        def quarter():
            close(rotate(src, 0), src, 1e-6 * res * res, 0, "rotation by zero")
            for nearest in (True, False):
                for k, ang in ((1, 90), (2, 180), (3, 270), (3, -90), (2, -180), (4, 360), (4, -360), (1, 450)):
                    out = rotate(src, ang, nearest=nearest)
                    # counter-clockwise: content at (x, y) moves to (res - 1 - y, x)
                    want = src
                    for _ in range(k):
                        w = np.zeros_like(want)
                        for x in range(res):
                            for y in range(res):
                                w[res - 1 - y, x] = want[x, y]
                        want = w
                    close(np.where(disk, out, 0), np.where(disk, want, 0), 1e-5 * res * res, 0, f"rotation by {ang}, nearest {nearest}")
                o = src
                for _ in range(4):
                    o = rotate(o, 90., nearest=nearest)
                close(np.where(disk, o, 0), np.where(disk, src, 0), 1e-5 * res * res, 0, "four quarter turns")
        ctx.run([res, "quarter"], quarter)

        def opposite():
            g = np.mgrid[0:res, 0:res] + .5
            for ang in (7, 30, 45, 77.5, 133):
                for a in (g[0], g[1], 3 * g[0] - g[1] + 2):
                    o = rotate(rotate(a, ang), -ang)
                    close(np.where(disk, o, 0), np.where(disk, a, 0), 1e-6 * res * 4, 0, f"opposite rotations by {ang}")
        ctx.run([res, "opposite"], opposite)

        def center():
            m = res / 2
            close(np.where(disk, rotate(src, 0, (m, m)), 0), np.where(disk, src, 0), 1e-5 * res * res, 0, "the present centre as new centre")
            for p in ((m, m), (m - 1, m + .5), (m + .5, m - .5)):
                close(np.where(disk, rotate(src, 0, p + p), 0), np.where(disk, src, 0), 1e-4 * res * res, 0, "start equals end")
        if res > 2:
            ctx.run([res, "identity"], center)


def g_kernel(ctx, ress, cases):
    for res in ress:
        for ang, c in cases:
            if c is not None:
                c = tuple(res / 2 + i * res / 8 for i in c)

            def go():
                pos, ok = source(res, ang, c, True)
                for k in range(0, res * res):
                    a = np.zeros((res, res))
                    a.flat[k] = 1.5
                    want, ins = bilinear(a, pos)
                    out = rotate(a, ang, c).ravel()
                    close(out[ok & ins], want[ok & ins], 1e-6 * res, 0, f"impulse at {divmod(k, res)}")
                    fl = rotate(a, ang, c, fill_value=-7.).ravel()
                    ins = np.all((pos > .5 + 1e-6) & (pos < res - .5 - 1e-6), 1)
                    close(fl[ok & ins], want[ok & ins], 1e-6 * res, 0, f"impulse at {divmod(k, res)}, with fill value")
                    far = ok & np.any((pos < .5 - 1e-6) | (pos > res - .5 + 1e-6), 1)
                    close(fl[far], np.full(far.sum(), -7.), 1e-9, 0, "fill value outside the image")
                    ctx.bulk(1)
            if res > 1:
                ctx.run([res, ang, c, "kernel"], go)

            def colour():
                src = coded((res, res))
                col = np.stack((src, src[::-1] * 2, src[:, ::-1] ** 2 / res))
                for nearest in (False, True):
                    for first in (True, False):
                        o = rotate(col, ang, c, first, nearest=nearest)
                        same(o.shape, col.shape, "colour shape")
                        for i in range(3):
                            close(o[i], rotate(col[i].copy(), ang, c, first, nearest=nearest), 1e-9, 1e-9, f"channel {i}")
                        for f in forms(col):
                            close(rotate(f, ang, c, first, nearest=nearest), o, 1e-3, 1e-5, "memory layout or type")
            if res > 1:
                ctx.run([res, ang, c, "colour"], colour)


def groups(tier):
    q = tier == "quick"
    angs = list(range(-180, 181, 30)) + [45, -7.5, 1, 400] if q else list(range(-360, 361, 15)) + [-7.5, 1, 400, .1]
    g = [("rotate", g_geo, (2, 3, 4, 5, 8, 12, 21) if q else range(2, 41), angs, "rotate", 0, 1)]
    ca = (0, 30, -90, 75) if q else (0, 30, -90, 75, 180, -45, 10)
    for p in range(4):
        g.append((f"center {p}", g_geo, (4, 5, 8, 11) if q else range(3, 17), ca, "center", p, 4))
        g.append((f"pair {p}", g_geo, (4, 5, 8) if q else range(4, 13), ca, "pair", p, 4))
    g.append(("permutations", g_perm, range(2, 13) if q else range(2, 34)))
    g.append(("kernel", g_kernel, (2, 3, 5, 8) if q else range(2, 13), ((0, None), (30, None), (90, None), (0, (1, -1)), (-20, (.7, 1.3)), (15, (1, 1, -1, .5)))))
    return g
