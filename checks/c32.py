"""Gray and colour images of every resolution up to 9 (quick) / 24, for a lattice of view directions, angles (incl. two-part 360 degree images) and weights: index-coded images, written
with the view in the header, must give one ray per pixel with the direction of the reference geometry, the pixel's solid angle (the reference quadrilateral within the finite-difference error; their total the
visible view) and its value; every single-pixel impulse must appear at exactly the ray that points to its pixel (by the reference projection), in direction, size and value order alike. A supplied view
overrides the one in the file; the values follow default, given and header weights."""
import itertools
import math

import numpy as np

from mc import ref
from mc.core import check, close, raises, same, scratch
from checks.c31 import image
from raytools import imagetools, io
from raytools.mapper import ViewMapper

RULE = "one case per (view, resolution, image, options); all non-trivial"

DIRS = [(0, 1, 0), (1, 0, 0), (0, -1, 0), (-1, 2, .5), (.3, .2, -.9), (0, 0, 1), (0, 0, -1), (1, 1, 1)]


def coded(n):
    """values RGBE stores exactly and that are all different"""
    k = np.arange(n)
    return (128 + k % 128) / 128. * 2. ** (k // 128 - 3)


def verify(v, o, l, rv, res, want, what=""):
    n = res * res * rv.aspect
    same(v.shape, (n, 3), f"{what} directions")
    same(o.shape, (n,), f"{what} solid angles")
    check(np.shape(l)[:1] == (n,), f"{what} values {l.shape}")
    pix = rv.pixels(res)
    close(v, rv.ray(pix / res), 1e-9, 0, f"{what} direction")
    close(l, want, 1e-6, .006, f"{what} value")
    c = [rv.ray((pix + d) / res) if rv.rear is None else ray360(rv, pix, d, res) for d in ((-.5, -.5), (.5, -.5), (.5, .5), (-.5, .5))]
    q = ref.solid_angle_quad(*c)
    r = np.hypot(*center(rv, pix / res).T)
    ok = (r + 1. / res < 1)
    with np.errstate(all="ignore"):
        e = np.abs(o - q) / q
    check(e[ok] < 3. / res ** 2 + .001, f"{what} solid angle")
    check(o >= 0, "negative solid angles")


def center(rv, xy):
    p = np.array(xy)
    p[p[:, 0] >= 1, 0] -= 1
    return (p - .5) * 2


def ray360(rv, pix, d, res):
    p = pix.copy()
    rear = p[:, 0] >= res
    p[rear, 0] -= res
    out = View180(rv.d).ray((p + d) / res)
    out[rear] = rv.rear.ray((p[rear] + d) / res)
    return out


def View180(d):
    return ref.View(d, 180)


def g_views(ctx, va, dirs, ress):
    with scratch():
        for d in dirs:
            rv = ref.View(d, va)
            for res in ress:
                def go():
                    vm = ViewMapper(d, va)
                    x = res * rv.aspect
                    a = coded(x * res).reshape(x, res)
                    io.array2hdr(a, "g.hdr", [vm.header((4, 5, 6))])
                    v, o, l = imagetools.hdr2vol("g.hdr")
                    same(np.shape(l), (x * res,), "gray values")
                    verify(v, o, l, rv, res, a.ravel(), "gray")
                    close(o, np.tile(vm.pixel2omega(vm.pixels(res), res).ravel(), rv.aspect), 1e-12, 1e-9, "solid angle of the pixel")
                    c = np.stack((a, a[::-1] * 2, a[:, ::-1] / 2))
                    io.carray2hdr(c, "c.hdr", [vm.header()])
                    v, o, l = imagetools.hdr2vol("c.hdr", color=True)
                    same(np.shape(l), (x * res, 3), "colour values")
                    close(l, io.hdr2carray("c.hdr").reshape(3, -1).T, 0, 0, "colour values of the file")
                    verify(v, o, l, rv, res, l, "colour")
                    for w in ((.2, .7, .1), (1, 0, 0)):
                        close(imagetools.hdr2vol("c.hdr", color=True, vlambda=w)[2], l, 0, 0, "all channels with weights given")
                    for w in (None, (.2, .7, .1), (1, 0, 0), (0, 0, 2.), (.2, .5, .1), (1, 0, -1), (-.5, -.25, 0), (3, 2, 1)):
                        v, o, l = imagetools.hdr2vol("c.hdr", vlambda=w)
                        ww = (.265, .67, .065) if w is None else w
                        verify(v, o, l, rv, res, io.hdr2carray("c.hdr").reshape(3, -1).T @ np.array(ww), "weighted")
                ctx.run([list(d), va, res], go)

                def given():
                    # a supplied view overrides the file's
                    x = res * rv.aspect
                    a = coded(x * res).reshape(x, res)
                    vm = ViewMapper(d, va)
                    other = ViewMapper((1, -1, .2), 100)
                    io.array2hdr(a, "g.hdr", [other.header()])
                    v, o, l = imagetools.hdr2vol("g.hdr", vm)
                    verify(v, o, l, rv, res, a.ravel(), "given view")
                    io.array2hdr(a, "n.hdr")
                    v, o, l = imagetools.hdr2vol("n.hdr", vm=vm)
                    verify(v, o, l, rv, res, a.ravel(), "given view, none in the file")
                    c = np.stack((a, a[::-1] * 2, a[:, ::-1] / 2))
                    io.carray2hdr(c, "c.hdr", [other.header()])
                    w = io.hdr2carray("c.hdr").reshape(3, -1).T
                    v, o, l = imagetools.hdr2vol("c.hdr", vm, True)
                    verify(v, o, l, rv, res, w, "given view, colour")
                    v, o, l = imagetools.hdr2vol("c.hdr", vm=vm, vlambda=(.2, .7, .1))
                    verify(v, o, l, rv, res, w @ np.array((.2, .7, .1)), "given view, weighted")
                ctx.run([list(d), va, res, "given"], given)


def g_impulse(ctx, va, dirs, ress):
    with scratch():
        for d in dirs:
            rv = ref.View(d, va)
            for res in ress:
                x = res * rv.aspect
                for px, py in itertools.product(range(x), range(res)):
                    def go():
                        for ch in (None, 0, 1, 2):
                            if ch is None:
                                a = np.zeros((x, res))
                                a[px, py] = 4.
                                io.array2hdr(a, "i.hdr", [ViewMapper(d, va).header()])
                                v, o, l = imagetools.hdr2vol("i.hdr")
                                m = l
                            else:
                                a = np.zeros((3, x, res))
                                a[ch, px, py] = 4.
                                io.carray2hdr(a, "i.hdr", [ViewMapper(d, va).header()])
                                v, o, l = imagetools.hdr2vol("i.hdr", color=True)
                                check(np.abs(np.delete(l, ch, 1)) < .05, "other channels")
                                m = l[:, ch]
                            k = np.nonzero(m > 1)[0]
                            check(len(k) == 1, f"lit rays {k}")
                            close(m[k[0]], 4., .05, 0, "value")
                            r = center(rv, np.array([[(px + .5) / res, (py + .5) / res]]))
                            if np.hypot(*r[0]) < 1:
                                xy = rv.xy(v[k] / np.linalg.norm(v[k]))[0] * res
                                close(xy, (px + .5, py + .5), 1e-5, 0, "pixel the lit ray points to")
                    ctx.run([list(d), va, res, px, py], go)


def groups(tier):
    q = tier == "quick"
    g = []
    for va in (180, 360, 120, 45.5):
        for i in range(2):
            g.append((f"rays {va} {i}", g_views, va, DIRS[i::2], (1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 31) if q else list(range(1, 40)) + [64, 101]))
        g.append((f"impulses {va}", g_impulse, va, ((0, 1, 0), (-1, 2, .5)) if q else DIRS, (1, 2, 3, 4) if q else (1, 2, 3, 4, 5)))
    return g
