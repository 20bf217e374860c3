"""Every resolution up to 12 (quick) / 24 (thorough), gray and colour, 180 and 360 degrees: index-coded images (every pixel a different value) reveal for every
output pixel which source pixel it took, which must be the one holding the pixel's direction by the reference geometry (pixels within 1e-7 of a
boundary may take either neighbour); for the equisolid conversions at 180 degrees the images of the two source coordinates give the exact source position of every output pixel, and
every single-pixel impulse its interpolation kernel. Outside the view the output is zero, constants stay constant, channels are independent, the input is unchanged, and data types and memory layouts do not matter.
Below 180 degrees (where the radial law is a known finding, C21) constants, masks, the axis and the inverse relation of both directions are checked."""
import math

import numpy as np

from mc import ref
from mc.core import check, close, fail, same
from raytools import imagetools
from raytools.mapper import ViewMapper

RULE = "one case per (conversion, resolution, view, image); trivial for constant images"


def coded(shape):
    return np.arange(1., np.prod(shape) + 1).reshape(shape)


def sources(pos, shape, tol=1e-7):
    """all pixels a position may fall in: list of (n,2) candidate arrays"""
    out = []
    for dx in (-tol, tol):
        for dy in (-tol, tol):
            out.append(np.clip(np.floor(pos + [dx, dy]).astype(int), 0, np.array(shape) - 1))
    return out


def from_source(got, src, pos, mask, what):
    """every masked element of got is the src pixel at pos; others are zero"""
    ok = np.zeros(len(pos), bool)
    for c in sources(pos, src.shape):
        ok |= got.ravel() == src[c[:, 0], c[:, 1]]
    bad = mask & ~ok
    if bad.any():
        k = np.nonzero(bad)[0][0]
        fail(f"{what}: output pixel {np.unravel_index(k, got.shape)} has value {got.ravel()[k]}, its direction is at source position {pos[k]} "
             f"(value {src[tuple(sources(pos, src.shape)[0][k])]}); {bad.sum()} pixels differ")
    check(got.ravel()[~mask] == 0, f"{what}: pixels outside the view are not zero")


def forms(a):
    """the same image in other memory layouts and types"""
    yield a.astype(np.float32)
    yield np.asfortranarray(a)
    yield np.ascontiguousarray(a[..., ::-1])[..., ::-1]


def g_uv2ang(ctx, va, ress):
    rv = ref.View((0, 1, 0), va)
    for res in ress:
        shape = (res * rv.aspect, res)

        def go():
            src = coded(shape)
            keep = src.copy()
            pix = rv.pixels(res)
            ray = rv.ray(pix / res)
            ang = rv.angle(ray)
            r = np.hypot(*((pix / res - .5) * 2).T) if va != 360 else np.minimum(np.hypot(*((pix / res - .5) * 2).T), np.hypot(*((pix / res - [1.5, .5]) * 2).T))
            mask = r < 1 - 1e-9
            uv = ref.xyz2uv(ray @ rv.B.T)
            if va == 360:
                # own half of the square for each half of the image
                pass
            out = np.asarray(imagetools.array_uv2ang(src))
            same(out.shape, shape, "shape")
            from_source(out, src, uv * res, mask, "square to angular")
            same(src, keep, "the input image was changed")
            col = np.stack((src, src[::-1] * 2, src[:, ::-1] + 1000))
            oc = np.asarray(imagetools.array_uv2ang(col))
            same(oc.shape, (3,) + shape, "colour shape")
            for i in range(3):
                same(oc[i], imagetools.array_uv2ang(col[i].copy()), f"channel {i}")
            for f in forms(src):
                close(imagetools.array_uv2ang(f), out, 0, 1e-6, "memory layout or type")
            for f in forms(col):
                close(imagetools.array_uv2ang(f), oc, 0, 1e-6, "memory layout or type")
            c = imagetools.array_uv2ang(np.full(shape, 2.5))
            same(np.unique(c.ravel()[mask]) if mask.any() else np.array([2.5]), np.array([2.5]), "constant image")
            ctx.bulk(mask.sum())
        ctx.run([res], go)


def g_ang2uv(ctx, va, ds, ress):
    for d in ds:
        vm = ViewMapper(d, va)
        rv = ref.View(d, va)
        for res in ress:
            shape = (res * rv.aspect, res)

            def go():
                src = coded(shape)
                keep = src.copy()
                uv = rv.pixels(res) / res
                xy = rv.xy(rv.uv(uv))
                out = np.asarray(imagetools.array_ang2uv(src, vm))
                same(out.shape, shape, "shape")
                from_source(out, src, xy * res, np.ones(len(uv), bool), "angular to square")
                same(src, keep, "the input image was changed")
                col = np.stack((src, src[::-1] * 2, src[:, ::-1] + 1000))
                oc = np.asarray(imagetools.array_ang2uv(col, vm))
                for i in range(3):
                    same(oc[i], imagetools.array_ang2uv(col[i].copy(), vm), f"channel {i}")
                for f in forms(src):
                    close(imagetools.array_ang2uv(f, vm), out, 0, 1e-6, "memory layout or type")
                if va == 180:
                    same(imagetools.array_ang2uv(src), out, "default view")
                same(np.unique(imagetools.array_ang2uv(np.full(shape, 2.5), vm)), np.array([2.5]), "constant image")
                ctx.bulk(len(uv))
                if res >= 8 and va in (180, 360):
                    # there and back: the value comes from a neighbouring direction
                    for name, f, g in (("uv-ang-uv", imagetools.array_uv2ang, lambda a: imagetools.array_ang2uv(a, vm)),
                                       ("ang-uv-ang", lambda a: imagetools.array_ang2uv(a, vm), imagetools.array_uv2ang)):
                        v = (rv.uv(uv) if name[0] == "u" else rv.ray(uv)) @ rv.B.T
                        a = rv.angle(v @ rv.B)
                        ok = (np.minimum(a, np.pi - a) if va == 360 else a) < .9 * rv.H
                        if name[0] == "a":
                            ok = np.hypot(*((np.mod(uv, 1) - .5) * 2).T) < .9
                        for ax in range(3):
                            b = f(v[:, ax].reshape(shape))
                            b = g(b).ravel()
                            close(b[ok], v[ok, ax], 4.5 / res, 0, f"{name}: component {ax} of the direction")
            ctx.run([list(d), res], go)


# -- equisolid ---------------------------------------------------------------
def source_pos(res, reverse):
    """source image position (pixels) and in-view mask of every output pixel, 180 degrees"""
    p = (ref.View((0, 1, 0), 180).pixels(res) / res - .5) * 2
    r = np.hypot(p[:, 0], p[:, 1])
    m = r < 1 - 1e-9
    with np.errstate(all="ignore"):
        if reverse:     # equisolid output from angular source
            s = 2 * np.arcsin(np.clip(r / math.sqrt(2), 0, 1)) / (math.pi / 2)
        else:
            s = np.sin(r * math.pi / 4) * math.sqrt(2)
        k = np.where(r > 0, s / r, 1)
    return (p * k[:, None] / 2 + .5) * res, m


def bilinear(src, pos):
    """reference interpolation between pixel centres, where all four exist"""
    q = pos - .5
    i = np.floor(q).astype(int)
    n = np.array(src.shape)
    f = q - i
    inside = np.all((q >= 0) & (q <= n - 1), axis=1)
    i = np.clip(i, 0, n - 2)
    f = q - i
    out = 0
    for a in (0, 1):
        for b in (0, 1):
            w = np.abs(1 - a - f[:, 0]) * np.abs(1 - b - f[:, 1])
            out = out + w * src[i[:, 0] + a, i[:, 1] + b]
    return out, inside


def g_solid(ctx, reverse, ress, every):
    for res in ress:
        pos, m = source_pos(res, reverse)

        def coords():
            g = np.mgrid[0:res, 0:res] + .5
            for ax in (0, 1):
                keep = g[ax].copy()
                out = np.asarray(imagetools.array_solid2ang(g[ax], reverse=reverse, returnvm=False))
                same(g[ax], keep, "the input image was changed")
                same(out.shape, (res, res), "shape")
                # 1e-6: the code adds 1e-9 to radii
                close(out.ravel()[m], pos[m, ax], 1e-5 * res, 0, f"source coordinate {ax} of the output pixels")
                check(out.ravel()[~m] == 0, "pixels outside the view are not zero")
            c = imagetools.array_solid2ang(np.full((res, res), 2.5), reverse=reverse, returnvm=False).ravel()
            close(c[m], np.full(m.sum(), 2.5), 1e-9, 0, "constant image")
            check(c[~m] == 0, "pixels outside the view are not zero")
            nn = imagetools.array_solid2ang(coded((res, res)), nearest=True, reverse=reverse, returnvm=False)
            from_source(np.asarray(nn), coded((res, res)), pos, m, "nearest") if res > 1 else None
            img, vmo = imagetools.array_solid2ang(g[0], reverse=reverse)
            check(isinstance(vmo, ViewMapper), "the view of the result is returned")
            same(np.asarray(img).shape, (res, res), "shape with view")
        if res > 1:
            ctx.run([res, "coordinates"], coords)

        def impulses():
            for k in range(0, res * res, every if res > 6 else 1):
                a = np.zeros((res, res))
                a.flat[k] = 1.5
                out = np.asarray(imagetools.array_solid2ang(a, reverse=reverse, returnvm=False)).ravel()
                want, ins = bilinear(a, pos)
                close(out[m & ins], want[m & ins], 1e-5 * res, 0, f"impulse at {divmod(k, res)}")
                nn = np.asarray(imagetools.array_solid2ang(a, nearest=True, reverse=reverse, returnvm=False)).ravel()
                check(np.isin(nn, (0, 1.5)), "nearest interpolation mixes pixels")
                ctx.bulk(1)
        if res > 1:
            ctx.run([res, "impulses"], impulses)

        def colour():
            src = coded((res, res))
            for nearest in (False, True):
                for F in (1, 2, 3, 5):
                    col = np.stack([src * (i + 1) + i * src.T for i in range(F)])
                    oc = np.asarray(imagetools.array_solid2ang(col, nearest, reverse, returnvm=False))
                    same(oc.shape, col.shape, "shape")
                    for i in range(F):
                        close(oc[i], imagetools.array_solid2ang(col[i].copy(), nearest, reverse, returnvm=False), 0, 1e-12, f"channel {i}")
                    wv, vmo = imagetools.array_solid2ang(col, nearest, reverse)
                    close(wv, oc, 0, 1e-12, "returned with its view")
                    close(imagetools.array_solid2ang(col[0], nearest, reverse)[0], oc[0], 0, 1e-12, "returned with its view")
                    for f in forms(col):
                        close(imagetools.array_solid2ang(f, nearest, reverse, returnvm=False), oc, 1e-4, 1e-5, "memory layout or type")
        if res > 1:
            ctx.run([res, "colour"], colour)


def g_below(ctx, vas, ress):
    for va in vas:
        for res in ress:
            def go():
                p = (ref.View((0, 1, 0), 180).pixels(res) / res - .5) * 2
                r = np.hypot(p[:, 0], p[:, 1])
                for rev in (False, True):
                    for nearest in (False, True):
                        c = imagetools.array_solid2ang(np.full((res, res), 2.5), nearest, rev, va, False).ravel()
                        check((c == 0) | (np.abs(c - 2.5) < 1e-9), "constant image")
                        check(np.abs(c[r < .8] - 2.5) < 1e-9, "pixels well inside the view are empty")
                        check(c[r > 1.3] == 0, "pixels outside the view are not zero")
                    # symmetric about the axis
                    g = np.mgrid[0:res, 0:res] + .5 - res / 2
                    o = [np.asarray(imagetools.array_solid2ang(k, False, rev, va, False)) for k in g]
                    ins = (r < .8).reshape(res, res)
                    close(np.where(ins, o[0] + o[0][::-1], 0), np.zeros((res, res)), 1e-6, 0, "mirrored")
                    close(np.where(ins, o[1] - o[0].T, 0), np.zeros((res, res)), 1e-6, 0, "transposed")
                    a = np.arctan2(g[1], g[0])
                    far = ins & (np.hypot(*g) > 1)
                    close(np.where(far, np.cos(np.arctan2(o[1], o[0]) - a), 1), np.ones((res, res)), 1e-9, 0, "azimuth is kept")
                    # there and back
                    b = [np.asarray(imagetools.array_solid2ang(k, False, not rev, va, False)) for k in o]
                    mid = (r < .5).reshape(res, res)
                    for x, y in zip(b, g):
                        close(np.where(mid, x - y, 0), np.zeros((res, res)), .35, 0, "there and back")
            ctx.run([va, res], go)


def g_default(ctx, top):
    """the default view is the half sphere at any resolution"""
    vm = ViewMapper(viewangle=180)
    for res in range(1, top):
        def go():
            a = np.arange(res * res, dtype=float).reshape(res, res)
            same(imagetools.array_ang2uv(a), imagetools.array_ang2uv(a, vm), "default view")
        ctx.run(["default", res], go)


def groups(tier):
    q = tier == "quick"
    ress = list(range(1, 13)) + [20, 33] if q else list(range(1, 41)) + [64, 101, 128]
    ds = [(0, 1, 0), (.13, -.435, 1), (0, 0, 1), (0, 0, -1)] if q else ref.lattice_dirs(1) + [(.13, -.435, 1)]
    g = [(f"uv2ang {va}", g_uv2ang, va, ress) for va in (180, 360)]
    g += [(f"ang2uv {va}", g_ang2uv, va, ds, ress) for va in ((180, 360, 90, 44) if q else (180, 360, 153, 90, 44, 5))]
    for rev in (False, True):
        for k in range(4):
            g.append((f"solid2ang reverse={rev} {k}", g_solid, rev, [i for i in ress if 1 < i < 65][k::4], 7 if q else 1))
    g.append(("default", g_default, 80 if q else 200))
    return g + [("below 180", g_below, (170, 120, 90, 44, 5), (6, 9, 16) if q else range(4, 40))]
