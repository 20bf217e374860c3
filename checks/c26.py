"""Every set of up to 2 (thorough: 3) pixels of small images (every pixel, both halves of 360 degree views, plus directions outside the image) is drawn with rays at
sub-pixel positions chosen by reference geometry, into images with background content, for 2-d and colour images, every channel form (number, tuple, none entries), grow radii, index and
boolean-derived masks, square and fisheye projection, angular, equisolid and planar mappers: exactly the marked pixels get exactly the channel values, everything else is bit for bit unchanged and
the grown image equals the block sum of the ungrown one (blocks in the interior; with overlapping blocks the sums add)."""
import itertools

import numpy as np

from mc import ref
from mc.core import check, close, fail, same, scratch
from raytools import imagetools, io
from raytools.mapper import Mapper, SolidViewMapper, ViewMapper

RULE = "one case per (view, projection, image form, set of rays, mask); trivial for no rays"
SUB = ((.5, .5), (.03, .95), (.9, .2))


def make(kind, d, va):
    return SolidViewMapper(d, va) if kind == "solid" else ViewMapper(d, va)


def rays_of(kind, vm, rv, res, n):
    """(k,3) rays and (k,2) pixels of every in-view pixel at the n-th sub-pixel position"""
    pix = rv.pixels(res, SUB[n % 3])
    m = np.hypot(*((pix / res - .5) * 2).T) < .98
    if rv.aspect == 2:
        m |= np.hypot(*((pix / res - [1.5, .5]) * 2).T) < .98
    pix = pix[m]
    v = rv.ray(pix / res) if kind == "view" else vm.pixel2ray(pix, res)
    return v, np.floor(pix).astype(int)


def g_fish(ctx, kind, va, ds, ress, most):
    for d in ds:
        vm = make(kind, d, va)
        rv = ref.View(d, va)
        for res in ress:
            shape = (res * rv.aspect, res)
            n = 0
            for k in range(most + 1):
                total = rays_of(kind, vm, rv, res, 0)[0].shape[0]
                for combo in itertools.combinations(range(total), k):
                    n += 1

                    def go():
                        v, pix = rays_of(kind, vm, rv, res, n)
                        if any(c >= len(v) for c in combo):
                            return
                        c = list(combo) + ([combo[0]] if n % 4 == 0 and k else [])
                        v, pix = v[c].reshape(-1, 3), pix[c].reshape(-1, 2)
                        keep = v.copy()
                        bg = np.arange(1., shape[0] * shape[1] + 1).reshape(shape) / 8
                        want = bg.copy()
                        want[tuple(pix.T)] = 5.5
                        ch = (5.5, (5.5, 0, 0), [5.5])[n % 3]
                        out = vm.add_vecs_to_img(bg.copy(), v, ch)
                        same(out, want, "2-d image")
                        chs = ((1.5, None, 3), (None, None, None), (4, 0, -2.), (None, 7, 8))[n % 4]
                        cbg = np.stack((bg, bg + 100, bg + 200))
                        cw = cbg.copy()
                        for i, x in enumerate(chs):
                            if x is not None:
                                cw[i][tuple(pix.T)] = x
                        same(vm.add_vecs_to_img(cbg.copy(), v, chs), cw, f"colour image, channels {chs}")
                        same(v, keep, "the rays were changed")
                        # drawn twice changes nothing more
                        same(vm.add_vecs_to_img(vm.add_vecs_to_img(bg.copy(), v, 5.5), v, 5.5), want, "drawn twice")
                    ctx.run([list(d), res, list(combo)], go)

            def grown():
                """blocks of every single pixel and of neighbouring pixels"""
                v, pix = rays_of(kind, vm, rv, res, 0)
                for g in (1, 2):
                    r = 2 * g + 1
                    pairs = [(i,) for i in range(len(v))] + [(i, j) for i in range(len(v)) for j in range(i + 1, min(i + 4, len(v)))]
                    for c in pairs:
                        p = pix[list(c)]
                        if np.any(p < g) or np.any(p + g >= np.array(shape)):
                            continue
                        want = np.zeros(shape)
                        for x, y in p:
                            want[x - g:x + g + 1, y - g:y + g + 1] += 2.
                        got = vm.add_vecs_to_img(np.zeros(shape), v[list(c)], 2., grow=g)
                        close(got, want, 1e-9, 0, f"grow {g}, pixels {p.tolist()}")
                        got = vm.add_vecs_to_img(np.zeros((2,) + shape), v[list(c)], (1., None), grow=g)
                        close(got[0], want / 2, 1e-9, 0, f"grow {g}, colour, pixels {p.tolist()}")
                        close(got[1], want * 0, 1e-9, 0, f"grow {g}, untouched channel")
                        ctx.bulk(1)
            ctx.run([list(d), res, "grow"], grown)

            def masks():
                """every pair of ray and one-pixel / half-image mask"""
                v, pix = rays_of(kind, vm, rv, res, 1)
                allpix = np.array(list(np.ndindex(*shape)))
                for m in list(allpix[:: 3, None]) + [allpix[::2], allpix[:len(allpix) // 2], allpix[::-1][:5]]:
                    inside = {tuple(i) for i in m.tolist()}
                    want = np.zeros(shape)
                    for p in pix.tolist():
                        if tuple(p) in inside:
                            want[tuple(p)] = 3
                    got = vm.add_vecs_to_img(np.zeros(shape), v, 3., mask=tuple(m.T))
                    same(got, want, f"mask of {len(m)} pixels")
                    ctx.bulk(1)
                img, vecs, mask, mask2, _ = vm.init_img(res)
                want = np.zeros(shape)
                keep = np.zeros(shape, bool)
                keep[mask] = True
                want[tuple(pix.T)] = 1
                same(vm.add_vecs_to_img(img, v, 1., mask=mask), want * keep, "mask of the initialized image")
            ctx.run([list(d), res, "masks"], masks)

            def outside():
                if va == 360:
                    return
                v, pix = rays_of(kind, vm, rv, res, 0)
                B = rv.B
                out = []
                for a in (rv.H * 1.5 + .01, ) if kind == "view" else ():
                    for p in (0, .5, 1, 1.5):   # sideways and up/down: outside the square of the image
                        if a < np.pi:
                            out.append(np.array((np.sin(a) * np.cos(p * np.pi), np.sin(a) * np.sin(p * np.pi), np.cos(a))) @ B)
                out = np.array(out).reshape(-1, 3)
                want = np.zeros(shape)
                same(vm.add_vecs_to_img(np.zeros(shape), out, 1.), want, "rays outside the image") if len(out) else None
                for i in range(len(v)):
                    for j in range(len(out)):
                        want = np.zeros(shape)
                        want[tuple(pix[i])] = 1
                        for w in (np.stack((v[i], out[j])), np.stack((out[j], v[i]))):
                            same(vm.add_vecs_to_img(np.zeros(shape), w, 1.), want, "one ray inside, one outside the image")
            ctx.run([list(d), res, "outside"], outside)


def g_border(ctx, ds, ress):
    """directions beside the border of the two halves of a 360 degree view"""
    for d, res in itertools.product(ds, ress):
        vm, rv = ViewMapper(d, 360), ref.View(d, 360)
        front, rear = ref.View(d, 180), ref.View(-np.array(d, float), 180)
        for off in (-1.5, -.9, -.5, -.1, -.01, .01, .1, .5, .9, 1.5):
            def go():
                t, a = np.radians(np.arange(48) * 7.5 + .7), np.radians(90 + off)
                v = np.stack((np.sin(a) * np.cos(t), np.sin(a) * np.sin(t), np.full(48, np.cos(a))), -1) @ rv.B
                xy = (front.xy(v) if off < 0 else rear.xy(v) + (1, 0)) * res
                ok = np.all(np.abs(xy - np.round(xy)) > 1e-6, 1)
                v, pix = v[ok], np.floor(xy[ok]).astype(int)
                for k in range(len(v) + 1):
                    s = slice(k, k + 1) if k < len(v) else slice(None)
                    want = np.zeros((2 * res, res))
                    want[tuple(pix[s].T)] = 2
                    same(vm.add_vecs_to_img(np.zeros((2 * res, res)), v[s], 2.), want, f"directions {off} degrees past the border")
                ctx.bulk(len(v))
            ctx.run([list(d), res, "border", off], go)


def g_plot(ctx, kind, va, ds, ress):
    """the image file of a set of directions"""
    with scratch():
        for n, (d, res, grow, sel) in enumerate(itertools.product(ds, ress, (0, 1, None), (slice(None), slice(0, 1), slice(None, None, 3), slice(0, 0)))):
            vm = make(kind, d, va) if kind != "plane" else Mapper(sf=(2, 4 + n % 2), bbox=((0, 0), (2, 4 + n % 2)))
            if kind == "plane":
                shape = tuple(vm.framesize(res))
                pix = np.array(list(np.ndindex(*shape)))
                if not len(pix):
                    continue
                v = np.concatenate(((pix + .5) / shape * (2, 4 + n % 2), np.zeros((len(pix), 1))), 1)
            else:
                rv = ref.View(d, va)
                shape = (res * rv.aspect, res)
                v, pix = rays_of(kind, vm, rv, res, 0)
            v, pix = v[sel], pix[sel]
            if len(pix) == 0 and kind != "view":
                continue

            def go():
                kw = {} if grow is None else dict(grow=grow)
                if n % 2:
                    kw["channels"] = (2.5, 0, 0)
                vm.plot(v, "p.hdr", res=res, **kw)
                a, h = io.hdr2array("p.hdr"), io.hdr_header("p.hdr")
                same(a.shape, shape, "image size")
                g = 1 if grow is None else grow
                want = np.zeros((shape[0] + 2 * g, shape[1] + 2 * g))
                one = np.zeros(shape)
                one[tuple(pix.T)] = kw.get("channels", (1,))[0]
                for i in range(2 * g + 1):
                    for j in range(2 * g + 1):
                        want[i:i + shape[0], j:j + shape[1]] += one
                w = want[g:want.shape[0] - g, g:want.shape[1] - g]
                ins = np.zeros(shape, bool)
                ins[g:shape[0] - g, g:shape[1] - g] = True
                if len(shape) and kind != "plane" and va == 360 and g:
                    ins[res - g:res + g] = False
                close(a[ins], w[ins], 1e-6, .01, "pixels of the drawn directions")
                if kind == "plane":
                    check(any("VIEW=" in i for i in h), "no view in the header")
                else:
                    got = imagetools.hdr2vm("p.hdr")
                    close(got.dxyz, ref.unit(d), 1e-9, 0, "view of the file")
                    same(got.aspect, rv.aspect, "halves of the view of the file")
            ctx.run(["plot", kind, va, list(d), res, grow, str(sel)], go)


def g_square(ctx, va, ds, ress, most):
    for d in ds:
        vm = ViewMapper(d, va)
        rv = ref.View(d, va)
        for res in ress:
            shape = (res * rv.aspect, res)
            cells = list(np.ndindex(*shape))
            for k in range(most + 1):
                for n, combo in enumerate(itertools.combinations(range(len(cells)), k)):
                    def go():
                        sub = SUB[n % 3]
                        c = np.array([cells[i] for i in combo]).reshape(-1, 2)
                        v = rv.uv((c + sub) / res).reshape(-1, 3) if k else np.zeros((0, 3))
                        ins = np.ones(len(c), bool)
                        if va != 360 and k:
                            # the square covers the view's disk; its corners are square coordinates too and still in view
                            ins = rv.angle(v) < rv.H
                            if np.any(np.abs(rv.angle(v) - rv.H) < 1e-6):
                                return
                        want = np.arange(float(shape[0] * shape[1])).reshape(shape)
                        got = vm.add_vecs_to_img(want.copy(), v, 50.5, fisheye=False)
                        for x in c[ins]:
                            want[tuple(x)] = 50.5
                        same(got, want, "square image")
                        if va != 360:
                            b = -np.array(ref.unit(d))[None]
                            same(vm.add_vecs_to_img(got.copy(), b, 9., fisheye=False), want, "a direction behind the view")
                    ctx.run([list(d), res, list(combo)], go)


def g_plane(ctx, ress, most):
    for bbox in (((0, 0), (1, 1)), ((-1, 2), (3, 4)), ((0, 0), (1, 3))):
        sf = np.array(bbox[1]) - bbox[0]
        mp = Mapper(sf=sf, bbox=bbox)
        for res in ress:
            shape = tuple(mp.framesize(res))
            cells = list(np.ndindex(*shape))
            for k in range(most + 1):
                for n, combo in enumerate(itertools.combinations(range(len(cells)), k)):
                    def go():
                        c = np.array([cells[i] for i in combo]).reshape(-1, 2)
                        uv = np.concatenate(((c + SUB[n % 3]) / shape, np.array([(-.1, .5), (.5, 1.1), (1.2, -.3)])[: n % 4]))
                        v = np.concatenate((np.array(bbox[0]) + uv * sf, np.zeros((len(uv), 1))), 1)
                        bg = np.arange(float(shape[0] * shape[1])).reshape(shape)
                        want = bg.copy()
                        for x in c:
                            want[tuple(x)] = 77.5
                        same(mp.add_vecs_to_img(bg.copy(), v, (77.5, (77.5,))[n % 2]), want, "planar image")
                        cbg = np.stack((bg, bg + 9))
                        cw = cbg.copy()
                        for x in c:
                            cw[:, x[0], x[1]] = 5, 6
                        same(mp.add_vecs_to_img(cbg.copy(), v, (5, 6)), cw, "planar colour image")
                        cw[1] = cbg[1]
                        same(mp.add_vecs_to_img(cbg.copy(), v, (5, None)), cw, "planar colour image, second channel left alone")
                        if k == 1 and n % 4 == 0 and c.min() > 0 and np.all(c + 1 < shape):
                            w = np.zeros(shape)
                            w[c[0][0] - 1:c[0][0] + 2, c[0][1] - 1:c[0][1] + 2] = 3
                            close(mp.add_vecs_to_img(np.zeros(shape), v, 3., grow=1), w, 1e-9, 0, "grow")
                            close(mp.add_vecs_to_img(np.zeros((3,) + shape), v, (3., None, 6), grow=1), np.stack((w, w * 0, 2 * w)), 1e-9, 0, "grow, colour")
                        if k and (len(cells) <= 16 or n % max(5, len(cells) // 2) == 0):
                            for gr in (1, 2, 3):
                                side = 2 * gr + 1
                                m1 = np.zeros(shape)
                                for x in c:
                                    m1[tuple(x)] = 1
                                a2 = np.asarray(mp.add_vecs_to_img(np.zeros(shape), v, 3., grow=gr))
                                a3 = np.asarray(mp.add_vecs_to_img(np.zeros((3,) + shape), v, (3., None, 6), grow=gr))
                                close(a3, np.stack((a2, a2 * 0, 2 * a2)), 1e-9, 0, "a grown mark is the same in every channel")
                                # each cell holds the marks of its block (where the block lies inside the image)
                                for x in np.ndindex(*shape):
                                    lo, hi = np.array(x) - gr, np.array(x) + gr + 1
                                    if np.all(lo >= 0) and np.all(hi <= shape):
                                        close(a2[x], 3 * m1[lo[0]:hi[0], lo[1]:hi[1]].sum(), 1e-9, 0, "grown marks inside the image")
                                # at the border nothing is lost
                                close(a2.sum(), 3 * m1.sum() * side ** 2, 1e-7, 0, "summed energy of grown marks")
                    ctx.run([bbox, res, list(combo)], go)


def groups(tier):
    q = tier == "quick"
    ds = [(0, 1, 0), (.13, -.435, 1), (0, 0, -1)] if q else ref.lattice_dirs(1) + [(.13, -.435, 1)]
    g = []
    for va in (180, 360, 90, 44):
        for kind in ("view", "solid"):
            if kind == "solid" and va == 360:
                continue
            for p in range(1 if q else 6):
                g.append((f"draw {kind} {va} {p}", g_fish, kind, va, ds[p::1 if q else 6], (1, 2, 5, 8) if q else (1, 2, 3, 4, 5, 8, 12), 2))
        for p in range(1 if q else 6):
            g.append((f"square {va} {p}", g_square, va, ds[p::1 if q else 6], (1, 2, 4) if q else (1, 2, 3, 4, 6), 2))
    if not q:
        g.append(("three", g_fish, "view", 360, ds[:2], (5,), 3))
    g.append(("border", g_border, ds, (4, 7, 30, 200) if q else (2, 3, 4, 5, 7, 16, 30, 63, 200, 500)))
    for kind, va in (("view", 180), ("view", 360), ("solid", 180), ("view", 90), ("plane", 0)):
        g.append((f"plot {kind} {va}", g_plot, kind, va, ds, (3, 6, 9) if q else (1, 2, 3, 6, 9, 14)))
    return [(f"plane {r}", g_plane, (r,), 2) for r in ((1, 2, 4, 6) if q else range(9, 0, -1))] + g
