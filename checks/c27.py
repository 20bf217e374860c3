"""Planar mappers over every combination of scale factor, bounding box, aspect (given or derived) and resolution: plane points, square coordinates, image
coordinates and pixels of every pixel (four sub-pixel positions) and of points outside the square are nodes, the library's conversions edges; every conversion path up to length 4
must reach the reference value uv = (xy - corner) / scale. Grid indices, frame sizes, pixel lists, pixel rays, pixel areas, visibility and array shapes are compared for every case."""
import numpy as np

from mc import ref
from mc.core import check, close, fail, same
from mc.graph import explore
from raytools.mapper import Mapper

RULE = "one case per (mapper settings, resolution, sub-pixel position, conversion path)"

OFF = ((.5, .5), (.02, .97), (.9, .1), (.25, .6))


def g(ctx, sf, bboxes, aspects, ress, depth, z):
    for bbox in bboxes:
        for asp in aspects:
            b0 = np.array(bbox[0], float)
            ext = np.array(bbox[1], float) - b0
            s = ext if sf is None else np.array(sf, float)
            want_asp = ext[0] / ext[1] if asp is None else asp

            def mk():
                return Mapper(sf=tuple(s), bbox=bbox, aspect=asp, uvz=z)

            def attrs():
                mp = mk()
                close(mp.aspect, want_asp, 1e-12, 0, "aspect")
                close(mp.area, ext[0] * ext[1], 1e-12, 0, "area")
                same(mp.bbox, np.array(bbox), "bounding box")
                mp.aspect = 2.5
                close(mp.aspect, 2.5, 0, 0, "aspect set")
                mp.aspect = None
                close(mp.aspect, ext[0] / ext[1], 1e-12, 0, "aspect reset to that of the bounding box")
            ctx.run([bbox, asp, "attributes"], attrs)
            for res in ress:
                if res < max(want_asp, 1 / want_asp):
                    continue
                mp = mk()

                def frame():
                    x, y = mp.framesize(res)
                    same(max(x, y), res, "larger side")
                    if want_asp >= 1:
                        same(x, res, "larger side is horizontal")
                        check(abs(y - res / want_asp) <= .5, f"height {y} for width {x} and aspect {want_asp}")
                    else:
                        same(y, res, "larger side is vertical")
                        check(abs(x - res * want_asp) <= .5, f"width {x} for height {y} and aspect {want_asp}")
                    check(isinstance(x, (int, np.integer)) and isinstance(y, (int, np.integer)), "frame size is not integer")
                    return x, y
                fs = ctx.run([bbox, asp, res, "frame"], frame)
                if fs is None:
                    continue
                grid = np.stack(np.mgrid[0:fs[0], 0:fs[1]], 2).reshape(-1, 2)
                for off in OFF:
                    pix = np.concatenate((grid + off, [(-.3, .4), (fs[0] + .3, -.1), (.2, fs[1] + 2.2)]))
                    uv = pix / fs
                    ray = np.concatenate((b0 + uv * s, np.full((len(uv), 1), z)), 1)
                    nodes = dict(pix=pix, uv=uv, ray=ray)
                    edges = [("pix", "uv", "divide", lambda a: a / fs), ("uv", "pix", "multiply", lambda a: a * fs),
                             ("pix", "ray", "pixel2ray", lambda a: mp.pixel2ray(a, res)), ("pix", "ray", "pixel2ray pair", lambda a: mp.pixel2ray(a, fs)),
                             ("ray", "pix", "ray2pixel", lambda a: mp.ray2pixel(a, res, integer=False)),
                             ("uv", "ray", "uv2xyz", mp.uv2xyz), ("ray", "uv", "xyz2uv", mp.xyz2uv),
                             ("uv", "ray", "vxy2xyz", mp.vxy2xyz), ("ray", "uv", "xyz2vxy", mp.xyz2vxy)]
                    explore(ctx, [bbox, asp, res, list(off)], nodes, edges, "uv", depth, tol=1e-9)
                    explore(ctx, [bbox, asp, res, list(off), "from pixels"], nodes, edges, "pix", depth - 1, tol=1e-9)

                    def more():
                        q = mp.ray2pixel(ray, res)
                        check(q.dtype.kind == "i", "integer pixels")
                        same(q, np.floor(pix).astype(int), "integer pixels")
                        same(mp.ray2pixel(ray, fs), q, "resolution given as a pair")
                        n = len(grid)
                        ins = np.zeros(len(pix), bool)
                        ins[:n] = True
                        same(mp.in_view(ray, False), ins, "in view")
                        same(mp.in_view(ray)[0], np.nonzero(ins)[0], "indices in view")
                        # shapes
                        g3 = ray[:n].reshape(fs + (3,))
                        close(mp.xyz2uv(g3), uv[:n].reshape(fs + (2,)), 1e-9, 0, "grid of points")
                        close(np.reshape(mp.uv2xyz(uv[:n].reshape(fs + (2,))), (-1, 3)), ray[:n], 1e-9, 0, "grid of coordinates")
                        close(np.reshape(mp.pixel2ray(pix[:n].reshape(fs + (2,)), res), (-1, 3)), ray[:n], 1e-9, 0, "grid of pixels")
                        o = mp.uv2xyz(uv, stackorigin=True)
                        close(o, np.hstack((np.zeros((len(uv), 3)), ray)), 1e-9, 0, "stacked origin")
                        for k in range(0, len(uv), 5):
                            close(mp.uv2xyz(uv[k]), ray[k:k + 1], 1e-9, 0, "single coordinate")
                    ctx.run([bbox, asp, res, list(off), "integer"], more)

                def idx():
                    n = len(grid)
                    uv = mp.idx2uv(np.arange(n), fs, False)
                    close(uv, (grid + .5) / fs, 1e-12, 0, "coordinates of indices")
                    same(mp.uv2idx(uv, fs), np.arange(n), "indices of coordinates")
                    for off in OFF:
                        same(mp.uv2idx((grid + off) / fs, fs), np.arange(n), "indices of coordinates within cells")
                    same(mp.pixels(res), grid.reshape(fs + (2,)) + .5, "pixel centres")
                    close(np.reshape(mp.pixelrays(res), (-1, 3)), mp.uv2xyz(uv), 1e-9, 0, "pixel rays in index order")
                    close(mp.pixel2omega(grid + .5, res), np.full(n, ext[0] * ext[1] / n), 0, 1e-12, "pixel area")
                    p = grid[::-1] + .5
                    same(mp.uv2idx(p / fs, fs), np.arange(n)[::-1], "reverse order")
                ctx.run([bbox, asp, res, "index"], idx)


def groups(tier):
    q = tier == "quick"
    bbs = [((0, 0), (1, 1)), ((-1, 2), (3, 4)), ((0, 0), (1, 3)), ((-5.5, -7.25), (-1, 12))]
    if not q:
        bbs += [((100, 200), (100.5, 200.25)), ((-.001, 0), (.002, .001)), ((0, -3), (7, 0))]
    asps = (None, 1, 2, .5, 1.5, .3, 2.7, .37) if q else (None, 1, 2, .5, 1.5, .3, 3.7, .77, 5, 2.7, .37)
    ress = (1, 2, 3, 5, 7, 8, 11) if q else range(1, 17)
    out = []
    for sf in (None, (1, 1), (2, 3), (.1, .7), (10, .01))[: 4 if q else 5]:
        for i, b in enumerate(bbs):
            out.append((f"scale {sf} box {i}", g, sf, (b,), asps, ress, 3 if q else 4, (0., 2.5)[i % 2]))
    return out
