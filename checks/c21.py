"""Configurations (view direction x view angle x projection x resolution) are nodes of a conversion graph: pixel coordinates, image plane coordinates
and ray directions of every in-view pixel (centre and three sub-pixel positions) with the library's conversions as edges (pixel2ray,
ray2pixel, vxy2xyz, xyz2vxy, pixels/res); every path of conversions up to length 4 is walked and in each node the values must equal the reference values
(angular: independent reference geometry; equisolid: the pixel grid, with directions constrained by the azimuth, the monotonic radius, the image centre and
edge). The integer pixel of every ray drawn from every pixel must be that pixel, pixelrays must list the rays of the pixel centres in
array order for both halves of a 360 degree view, and the view may be given unnormalized. The projection law is compared with the closed formula in separate groups
(the equisolid law is a known finding). View angles: 360 and at most 180; the visible half-angle of views below 180 degrees is the one the
library documents nowhere but uses everywhere (see 'views below 180 degrees' in the tail of this file)."""
import math

import numpy as np

from mc import ref
from mc.core import check, close, fail, same
from mc.graph import explore
from raytools.mapper import SolidViewMapper, ViewMapper

RULE = "one case per (view, resolution, sub-pixel position, conversion path); trivial when no pixel is in view"

OFF = ((.5, .5), (.02, .97), (.9, .1), (.25, .6))


def make(kind, d, va):
    return SolidViewMapper(d, va) if kind == "solid" else ViewMapper(d, va)


def g_paths(ctx, kind, va, ds, ress, offs, depth):
    for d in ds:
        rv = ref.View(d, va, "angular")
        for res in ress:
            vm = make(kind, d, va)
            for off in offs:
                pix = rv.pixels(res, off)
                vxy = pix / res
                if kind == "angular":
                    ray = rv.ray(vxy)
                else:
                    # radial law of the library itself, constrained in g_radial
                    ray = np.asarray(vm.vxy2xyz(vxy.copy()))
                # in view (first half only for directly addressed pixels), away from its border
                r = np.hypot(*((vxy - .5) * 2).T)
                m = r < 1 - 1e-6
                if va == 360:
                    m2 = np.hypot(*((vxy - [1.5, .5]) * 2).T) < 1 - 1e-6
                if not m.any():
                    continue
                nodes = dict(pix=pix[m], vxy=vxy[m], ray=ray[m])
                edges = [("pix", "vxy", "divide", lambda a: a / res), ("vxy", "pix", "multiply", lambda a: a * res),
                         ("pix", "ray", "pixel2ray", lambda a: vm.pixel2ray(a, res)),
                         ("ray", "pix", "ray2pixel", lambda a: vm.ray2pixel(a, res, integer=False)),
                         ("vxy", "ray", "vxy2xyz", lambda a: vm.vxy2xyz(a)), ("ray", "vxy", "xyz2vxy", lambda a: vm.xyz2vxy(a))]
                explore(ctx, [list(d), res, list(off)], nodes, edges, "pix", depth, tol=dict(pix=2e-6 * res, vxy=2e-6, ray=2e-6))

                def ints():
                    q = vm.ray2pixel(ray[m], res)
                    check(q.dtype.kind == "i", "pixels are not integers")
                    same(q, np.floor(pix[m]).astype(int), "integer pixel of a ray from that pixel")
                    same(vm.ray2pixel(ray[m], (res, res)), q, "resolution given as a pair")
                    k = np.nonzero(m)[0][-1]
                    same(vm.ray2pixel(ray[k:k + 1], res), np.floor(pix[k:k + 1]).astype(int), "a single ray")
                    if va == 360:
                        same(vm.ray2pixel(ray[m2], res), np.floor(pix[m2]).astype(int), "integer pixel in the rear half")
                        close(vm.ray2pixel(ray[m2], res, False), pix[m2], 2e-6 * res, 0, "pixel in the rear half")
                        close(vm.ivm.pixel2ray(pix[m2] - [res, 0], res), ray[m2], 2e-6, 0, "ray of a pixel in the rear half")
                ctx.run([list(d), res, list(off), "integer"], ints)

                def origins():
                    o = (1., -2., .5)
                    vo = (SolidViewMapper if kind == "solid" else ViewMapper)(d, va, origin=o)
                    for f, g in ((vo.vxy2xyz, vm.vxy2xyz), (vo.solid_vxy2xyz, vm.solid_vxy2xyz)):
                        p = vxy[m]
                        k = f(p.copy(), stackorigin=True)
                        same(k[:, :3], np.tile(o, (len(p), 1)), "origin before the rays")
                        close(k[:, 3:], g(p.copy()), 1e-12, 0, "rays behind the origin")
                        close(f(p[-1].copy(), stackorigin=True), k[-1:], 1e-12, 0, "a single position with origin")
                        close(f(p.copy()), k[:, 3:], 1e-12, 0, "rays without origin")
                ctx.run([list(d), res, list(off), "origin"], origins)

            def pairs():
                for xr, yr in ((res, res + 1), (2 * res, res), (3, 3 * res + 1)):
                    p = np.stack(np.meshgrid(np.arange(xr) + .37, np.arange(yr) + .81), -1).reshape(-1, 2)
                    q = p / [xr, yr]
                    m = np.hypot(*((q - .5) * 2).T) < 1 - 1e-6
                    if not m.any():
                        continue
                    want = rv.ray(q[m]) if kind == "angular" else np.asarray(vm.vxy2xyz(q[m].copy()))
                    close(vm.pixel2ray(p[m], (xr, yr)), want, 2e-6, 0, "ray with a resolution of its own per axis")
                    close(vm.ray2pixel(want, (xr, yr), False), p[m], 2e-6 * max(xr, yr), 0, "pixel with a resolution of its own per axis")
                    same(vm.ray2pixel(want, [xr, yr]), np.floor(p[m]).astype(int), "integer pixel with a resolution of its own per axis")
            ctx.run([list(d), res, "pairs"], pairs)

            def rays():
                pr = np.asarray(vm.pixelrays(res))
                same(pr.shape, (res * rv.aspect, res, 3), "shape of pixelrays")
                pr = pr.reshape(-1, 3)
                close(np.linalg.norm(pr, axis=1), np.ones(len(pr)), 1e-9, 0, "unit directions")
                p = rv.pixels(res)
                if kind == "angular":
                    close(pr, rv.ray(p / res), 1e-7, 0, "pixelrays")
                else:
                    close(pr, vm.pixel2ray(p, res), 1e-9, 0, "pixelrays")
                same(vm.pixels(res), p[:res * res].reshape(res, res, 2), "pixel centres")
                close(vm.pixel2ray(p[:res * res].reshape(res, res, 2), res).reshape(-1, 3), pr[:res * res], 1e-9, 0, "image shaped pixels")
                if res % 2:
                    c = vm.pixelrays(res)[res // 2, res // 2]
                    close(c, np.array(ref.unit(d)), 1e-7, 0, "the image centre looks along the view direction")
                s = make(kind, [3.7 * i for i in d], va)
                close(s.pixelrays(res).reshape(-1, 3), pr, 1e-9, 0, "view direction of another length")
            ctx.run([list(d), res, "pixelrays"], rays)


def g_radial(ctx, kind, vas, ds, n):
    """image up is world up, azimuth is kept, radius grows with the angle from 0 at the centre to 1/2 at the edge"""
    t = (np.arange(n) + .5) / n
    for va in vas:
        for d in ds:
            vm = make(kind, d, va)
            rv = ref.View(d, va, "angular")

            def radial():
                last = None
                for az in range(0, 360, 15):
                    c, s = math.cos(math.radians(az)), math.sin(math.radians(az))
                    xy = .5 + .5 * t[:, None] * [c, s]
                    r = np.asarray(vm.vxy2xyz(xy))
                    loc = r @ rv.B.T
                    close(np.linalg.norm(r, axis=1), np.ones(n), 1e-9, 0, "unit directions")
                    h = np.hypot(loc[:, 0], loc[:, 1])
                    close(-loc[:, 0] / h, np.full(n, c), 1e-6, 0, f"azimuth {az}: image right is the viewer's right")
                    close(loc[:, 1] / h, np.full(n, s), 1e-6, 0, f"azimuth {az}: image up is world up")
                    a = rv.angle(r)
                    check(np.all(np.diff(a) > 0), "the angle grows with the radius")
                    if last is not None:
                        close(a, last, 1e-7, 0, "the radial law is the same on every azimuth")
                    last = a
                    if va in (180, 360):
                        e = np.asarray(vm.vxy2xyz(np.array([[.5 + .5 * c, .5 + .5 * s]])))
                        close(rv.angle(e), [math.pi / 2], 1e-6, 0, "the image edge is at 90 degrees")
                close(vm.vxy2xyz(np.array([[.5, .5]]))[0], np.array(ref.unit(d)), 1e-7, 0, "centre")
                ctx.bulk(24 * n)
            ctx.run([va, list(d)], radial)


def g_outside(ctx, kind, vas, ds, ress):
    """directions beyond the image do not land on its pixels: the integer pixel lies next to the real coordinates, left and
    below the origin too, and no pixel is claimed by a direction that is outside the square around the view"""
    sph = np.array(ref.lattice_dirs(3), float)
    sph /= np.linalg.norm(sph, axis=1)[:, None]
    for va in vas:
        for d in ds:
            vm = make(kind, d, va)
            rv = ref.View(d, va)
            fine = []
            for a in (rv.H * .9, rv.H * 1.05, rv.H * 1.2, rv.H * 1.35):
                for k in range(24):
                    p = 2 * math.pi * (k + .37) / 24
                    fine.append(np.array((math.sin(a) * math.cos(p), math.sin(a) * math.sin(p), math.cos(a))) @ rv.B)
            fine = np.array(fine)
            ang = rv.angle(sph)
            v = np.concatenate((sph[ang < math.pi - .2], fine))
            for res in ress:
                def go():
                    r = np.asarray(vm.ray2pixel(v, res, integer=False))
                    q = np.asarray(vm.ray2pixel(v, res))
                    check(q.dtype.kind == "i", "pixels are not integers")
                    sure = np.all(np.abs(r - np.round(r)) > 1e-7, axis=1)
                    same(q[sure], np.floor(r[sure]).astype(int), "integer pixel of a direction outside the view")
                    close(np.asarray(vm.xyz2vxy(v)) * res, r, 1e-9 * res, 0, "coordinates of a direction outside the view")
                ctx.run([kind, va, list(d), res], go)


def g_law(ctx, kind, vas, n):
    """closed form of the projection"""
    t = (np.arange(n) + .5) / n
    for va in vas:
        for d in ((0, 1, 0), (.3, -.5, .2)):
            def law():
                vm = make(kind, d, va)
                xy = .5 + .5 * t[:, None] * [.6, .8]
                for f in ((vm.vxy2xyz,) if kind != "solid" else (vm.vxy2xyz, ViewMapper(d, va).solid_vxy2xyz)):
                    a = ref.View(d, va).angle(f(xy))
                    if kind == "angular":
                        close(a, t * ref.half_angle(va), 1e-7, 0, "angle proportional to the radius")
                        continue
                    # equisolid: radius proportional to the sine of half the angle
                    k = np.sin(a / 2) / t
                    if np.allclose(k, k[-1], rtol=1e-5):
                        continue
                    inv = ref.View(d, va, "code").r2t(t)
                    if np.allclose(a, inv, atol=1e-6):
                        fail("equisolid radius follows the inverse of the equisolid law")
                    fail(f"radius is not proportional to the sine of half the angle: angles {a[:4]} at radii {t[:4]}")
            ctx.run([va, list(d)], law)


def g_same(ctx, ress, ds):
    """the equisolid functions of ViewMapper are those of SolidViewMapper"""
    for va in (180, 120, 60):
        for d in ds:
            for res in ress:
                def go():
                    a, b = ViewMapper(d, va), SolidViewMapper(d, va)
                    p = np.asarray(b.pixelrays(res))
                    close(a.solid_pixelrays(res), p, 1e-9, 0, "solid_pixelrays")
                    m = b.in_view(p.reshape(-1, 3), False)
                    if not m.any():
                        return
                    q = b.ray2pixel(p.reshape(-1, 3)[m], res)
                    same(a.solid_ray2pixel(p.reshape(-1, 3)[m], res), q, "solid_ray2pixel")
                    same(q, np.floor(ref.View(d, va).pixels(res)[m]).astype(int), "pixel")
                    close(a.solid_pixel2ray(q + .5, res), p.reshape(-1, 3)[m], 1e-9, 0, "solid_pixel2ray")
                    close(a.solid_vxy2xyz((q + .5) / res), p.reshape(-1, 3)[m], 1e-9, 0, "solid_vxy2xyz")
                    close(a.solid_xyz2vxy(p.reshape(-1, 3)[m]), (q + .5) / res, 1e-6, 0, "solid_xyz2vxy")
                ctx.run([va, list(d), res], go)


def groups(tier):
    q = tier == "quick"
    ds = ref.lattice_dirs(1 if q else 2) + [(1e-4, 0, 1), (0, -1e-4, -1), (.13, -.435, 1)]
    ress = range(1, 10) if q else range(1, 17)
    vas = (180, 360, 90, 153, 44, 1) if q else (180, 360, 90, 153, 44, 1, 179.9, 120, 60, 10, 0.5)
    g = []
    for va in vas:
        for kind in ("angular", "solid"):
            if kind == "solid" and va == 360:
                continue
            for k in range(2 if q else 8):
                g.append((f"{kind} {va} {k}", g_paths, kind, va, ds[k::2 if q else 8], ress, OFF[:2] if q else OFF, 3 if q else 4))
    g += [(f"radial {k}", g_radial, k, [v for v in vas if v != 360 or k == "angular"], ds, 12 if q else 40) for k in ("angular", "solid")]
    g += [("law angular", g_law, "angular", vas, 20), ("law equisolid", g_law, "solid", [v for v in vas if v != 360], 20),
          ("solid functions", g_same, ress, ds)]
    g += [(f"outside {k}", g_outside, k, [v for v in vas if v < 360], ds, (1, 2, 5, 9)) for k in ("angular", "solid")]
    return g
