"""For every view direction, view angle, projection and resolution the solid angle of every in-view pixel is compared with the exact solid angle of the spherical
quadrilateral of its corners (independent reference geometry for angular views; for equisolid views the corners come from the mapper's own pixel rays), within the
second order discretization bound 0.8 (H/res)^2 (H the visible half-angle in radians; measured error of the present formula 0.1 to 0.74 of that), for single
pixels, lists, image shaped arrays and sub-pixel positions; it must be positive, equal for all view directions and mirrored pixels, and
sum over the in-view pixels to the solid angle of the visible cone within 1/res. The declared view area and the equal-area law of equisolid images have groups of
their own (known findings below 180 degrees and for the equisolid law)."""
import math

import numpy as np

from mc import ref
from mc.core import check, close, fail, same
from raytools.mapper import Mapper, SolidViewMapper, ViewMapper

RULE = "one case per (view, resolution) covering every pixel; trivial when no pixel is in view"


def make(kind, d, va):
    return SolidViewMapper(d, va) if kind == "solid" else ViewMapper(d, va)


CORNER = ((-.5, -.5), (.5, -.5), (.5, .5), (-.5, .5))


def g_omega(ctx, kind, va, ds, ress):
    base = {}
    for d in ds:
        vm = make(kind, d, va)
        rv = ref.View(d, va)
        for res in ress:
            def go():
                p = rv.pixels(res)[:res * res]
                m = np.hypot(*((p / res - .5) * 2).T) < 1
                if not m.any():
                    return
                q = p[m]
                c = [rv.ray((q + o) / res) if kind == "view" and va != 360 else vm.pixel2ray(q + o, res) for o in CORNER]
                want = ref.solid_angle_quad(*c)
                o = np.asarray(vm.pixel2omega(q, res))
                ctx.bulk(len(q) - 1)
                same(o.shape, (len(q),), "one solid angle per pixel")
                check(o > 0, "solid angle is not positive")
                if res > 1:
                    close(o / want, np.ones(len(q)), .8 * (rv.H / res) ** 2 + 1e-6, 0, "solid angle over that spanned by the pixel's corners")
                # any shape, any order
                full = np.asarray(vm.pixel2omega(p.reshape(res, res, 2), res))
                close(np.ravel(full)[m], o, 0, 1e-12, "image shaped pixels")
                close(vm.pixel2omega(q[::-1], res)[::-1], o, 0, 1e-12, "reversed order")
                k = len(q) // 2
                close(np.ravel(vm.pixel2omega(q[k:k + 1], res)), o[k:k + 1], 0, 1e-9, "single pixel")
                # symmetry of the image
                sq = np.where(m, np.ravel(full), 0).reshape(res, res)
                for s in (sq[::-1], sq[:, ::-1], sq.T):
                    close(s, sq, 0, 1e-8, "mirrored pixels")
                if kind == "solid" or va == 360:
                    pass
                elif res > 1:
                    # corners of every pixel (sub-pixel shifts) as well
                    for off in ((.2, -.3), (-.5, -.5)):
                        r = q + off
                        r = r[np.hypot(*((r / res - .5) * 2).T) < 1]
                        w = ref.solid_angle_quad(*[rv.ray((r + c_) / res) for c_ in CORNER])
                        close(vm.pixel2omega(r, res) / w, np.ones(len(r)), .8 * (rv.H / res) ** 2 + 1e-6, 0, "solid angle at a sub-pixel position")
                # independent of the direction
                if res in base:
                    close(o, base[res], 0, 1e-8, "solid angle depends on the view direction")
                base.setdefault(res, o)
                if res >= 4 and (kind == "view" or va == 180):
                    full_angle = 2 * math.pi * (1 - math.cos(rv.H))
                    check(abs(o.sum() / full_angle - 1) < 1 / res, f"in view pixels sum to {o.sum()}, visible view is {full_angle}")
                if va == 360:
                    close(vm.ivm.pixel2omega(q, res), o, 0, 1e-8, "rear half")
                    check(abs(2 * o.sum() / (4 * math.pi) - 1) < 1 / max(res, 2), "both halves cover the sphere")
            ctx.run([list(d), res], go)


def g_conv(ctx, ress):
    """the sum approaches the view's solid angle: error of averages of neighbouring resolutions falls"""
    for va in (180, 90, 44):
        def go():
            vm = ViewMapper((.2, 1, .3), va)
            rv = ref.View((.2, 1, .3), va)
            t = 2 * math.pi * (1 - math.cos(rv.H))
            for r in ress:
                e = []
                for res in range(r, r + 6):
                    p = rv.pixels(res)
                    m = vm.in_view(vm.pixel2ray(p, res), False)
                    e.append(vm.pixel2omega(p[m], res).sum() / t - 1)
                check(abs(np.mean(e)) < .6 / r, f"mean error {np.mean(e)} at resolution {r}")
                check(np.abs(e) < 1 / r, f"error {e} at resolution {r}")
        ctx.run([va], go)


def g_area(ctx, va):
    def go():
        for d in ((0, 1, 0), (.13, -.435, 1)):
            a = ViewMapper(d, va).area
            want = 4 * math.pi if va == 360 else 2 * math.pi * (1 - math.cos(ref.half_angle(va)))
            nominal = 2 * math.pi * (1 - math.cos(math.radians(va / 2)))
            if va < 180 and abs(a - nominal) < 1e-9:
                fail("the declared area is that of the nominal view angle, not of the smaller visible view")
            close(a, want, 1e-9, 1e-9, "declared area of the view")
    ctx.run([va], go)


def g_equal(ctx, ress):
    for res in ress:
        def go():
            vm = SolidViewMapper((.2, 1, .3), 180)
            p = ref.View((0, 1, 0), 180).pixels(res)
            m = np.hypot(*((p / res - .5) * 2).T) < 1 - 1 / res
            o = vm.pixel2omega(p[m], res)
            inv = ref.View((.2, 1, .3), 180, "inverse")
            w = ref.solid_angle_quad(*[inv.ray((p[m] + c) / res) for c in CORNER])
            if np.abs(o / w - 1).max() < .8 * (math.pi / 2 / res) ** 2:
                fail("pixels of an equisolid view follow the inverse of the equisolid law and differ in solid angle")
            check(o.max() / o.min() < 1 + 3 * (math.pi / 2 / res) ** 2, f"pixels of an equisolid view span {o.min() / o.mean():.4f} to {o.max() / o.mean():.4f} of their mean solid angle")
        ctx.run([res], go)


def g_plane(ctx, ress):
    for bbox in (((0, 0), (1, 1)), ((-1, 2), (3, 4)), ((0, 0), (1, 3))):
        for res in ress:
            def go():
                sf = np.array(bbox[1]) - bbox[0]
                mp = Mapper(sf=sf, bbox=bbox)
                x, y = mp.framesize(res)
                p = mp.pixels(res).reshape(-1, 2)
                o = mp.pixel2omega(p, res)
                close(o, np.full(x * y, sf[0] * sf[1] / (x * y)), 0, 1e-12, "planar pixel area")
                close(mp.pixel2omega(p[:1], res), o[:1], 0, 1e-12, "single pixel")
                close(mp.area, sf[0] * sf[1], 1e-12, 0, "area")
            ctx.run([bbox, res], go)


def groups(tier):
    q = tier == "quick"
    ds = ref.lattice_dirs(1 if q else 2) + [(1e-4, 0, 1), (.13, -.435, 1)]
    vas = (180, 360, 90, 44, 153, 5) if q else (180, 360, 179, 153, 120, 90, 60, 44, 30, 5, 1)
    ress = list(range(1, 13)) + [31, 64] if q else list(range(1, 65)) + [101, 200, 256]
    g = []
    for va in vas:
        g.append((f"omega view {va}", g_omega, "view", va, ds, ress))
        if va != 360:
            g.append((f"omega solid {va}", g_omega, "solid", va, ds[::3], ress))
        g.append((f"declared area {va}", g_area, va))
    g.append(("convergence", g_conv, (10, 30, 80, 200) if q else (10, 20, 40, 80, 160, 320, 640, 1000)))
    g.append(("equisolid equal area", g_equal, (8, 16, 33) if q else (8, 16, 33, 64, 128, 200)))
    g.append(("plane", g_plane, range(1, 9 if q else 40)))
    return g
