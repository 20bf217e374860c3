"""Visibility: for every view direction and angle, directions placed by reference geometry at every azimuth of a ring lattice at angles inside, just
inside, just outside and outside the visible half-angle (and shifted by the tolerance) must be reported in view exactly when the reference angle says so,
in every array shape (batch sizes, 2-d grids, single elements, non-contiguous and reversed arrays), the index and boolean forms selecting the same elements. Initialized images: for
every resolution, channel count, projection (and spelling), mask form and view the image is zero with the documented shape; vectors equal the reference rays of their
pixel; the mask holds exactly the pixels whose ray is inside the (front or rear) view; the colour mask used for assignment puts each
pixel's values in its channels; header lines carry the projection, view and point."""
import numpy as np

from mc import ref
from mc.core import check, close, fail, same
from raytools.mapper import Mapper, SolidViewMapper, ViewMapper

RULE = "one case per (view, tolerance, array shape) or (view, projection, resolution, features, mask form); trivial when nothing or everything is in view"

SPELL = dict(vta=("vta", "a", "A", "angular", "Angular", "fish", "fisheye", "vtA"), vte=("vte", "e", "E", "equisolid"), vuv=("vuv", "u", "uv", "U", "square"))


def make(kind, d, va):
    return SolidViewMapper(d, va) if kind == "solid" else ViewMapper(d, va)


def ring(rv, angs, naz):
    out = []
    for a in angs:
        for k in range(naz):
            p = 2 * np.pi * (k + .37) / naz
            out.append(np.array((np.sin(a) * np.cos(p), np.sin(a) * np.sin(p), np.cos(a))) @ rv.B)
    return np.array(out)


def g_inview(ctx, kind, va, ds, naz, tols):
    for d in ds:
        vm = make(kind, d, va)
        rv = ref.View(d, va)
        H = rv.H
        for tol in tols:
            e = H + tol
            angs = [a for a in (0, .2 * H, .9 * H, e - .02, e - 1e-4, e - 1e-6, e + 1e-6, e + 1e-4, e + .02, H + .3, 2.4, np.pi) if 0 <= a <= np.pi]
            want = np.repeat(np.array(angs) < e, naz)
            v = ring(rv, angs, naz)
            n = len(v)
            shapes = [(n, 3), (len(angs), naz, 3), (naz, len(angs), 3), (1, n, 3), (n, 1, 3), (2, n // 2, 3) if n % 2 == 0 else (n, 3),
                      (1, len(angs), naz, 3), (len(angs), 1, naz, 3), (len(angs), naz, 1, 3), (1, naz, 1, len(angs), 3)]
            for sh in shapes:
                def go():
                    a = v.reshape(sh)
                    b = np.asarray(vm.in_view(a, indices=False, tol=tol))
                    check(b.dtype == bool, "boolean form is not boolean")
                    same(np.ravel(b), want, "in view")
                    i = vm.in_view(a, tol=tol)
                    check(isinstance(i, tuple) and len(i) == len(sh) - 1, "index form has one array per axis")
                    w = want.reshape(sh[:-1])
                    for j, k in zip(i, np.nonzero(w)):
                        same(j, k, "index form")
                    same(a[i], v[want], "indexed vectors")
                    if tol == 0:
                        same(np.ravel(vm.in_view(a, False)), want, "default tolerance")
                ctx.run([list(d), tol, list(sh)], go)

            def singles():
                for k in range(n):
                    same(np.ravel(vm.in_view(v[k:k + 1], False, tol)), want[k:k + 1], "a single vector")
                    same(len(vm.in_view(v[k:k + 1], True, tol)[0]), int(want[k]), "a single vector, index form")
                p = np.concatenate((np.arange(0, n, 3), np.arange(1, n, 3)))[::-1]
                same(np.ravel(vm.in_view(v[p], False, tol)), want[p], "in another order")
                same(np.ravel(vm.in_view(np.asfortranarray(v)[::2], False, tol)), want[::2], "strided")
                same(np.ravel(vm.in_view(v[:0], False, tol)), want[:0], "no vectors")
            ctx.run([list(d), tol, "singles"], singles)

        def angles():
            angs = np.array((0, 1e-4, .3, 1.2, np.pi / 2, 2, 3, np.pi))
            v = ring(rv, angs, 5)
            w = np.repeat(angs, 5)
            close(vm.radians(v), w, 1e-7, 0, "angle in radians")
            close(vm.degrees(v), w * 180 / np.pi, 1e-5, 0, "angle in degrees")
            close(vm.ctheta(v), np.cos(w), 1e-9, 0, "cosine of the angle")
            close(vm.ctheta(v.reshape(8, 5, 3)).ravel(), np.cos(w), 1e-9, 0, "cosine of the angle, grid")
            check(np.abs(vm.ctheta(v * (1 + 1e-9))) <= 1, "cosine beyond one")
        ctx.run([list(d), "angles"], angles)


def g_edge(ctx, kind):
    """directions exactly at the half-angle, where cosines are exact numbers: a hemisphere's rim and a
    sphere's antipode are not inside the (open) view"""
    ax = [np.array(a, float) for a in ((1, 0, 0), (0, 1, 0), (0, 0, 1), (-1, 0, 0), (0, -1, 0), (0, 0, -1))]
    # an exact reference: the sign of a product of integers
    for d in ax:
        for n in range(1, 4):
            rim = [np.array(v, float) for v in ref.lattice_dirs(n) if np.dot(v, d) == 0 and np.linalg.norm(v) == np.round(np.linalg.norm(v))]
            rim = np.array([v / np.linalg.norm(v) for v in rim])
            for va in (180,):
                def go():
                    vm = make(kind, d, va)
                    rd = vm.radians(rim)
                    # only rows whose computed angle is exactly the half-angle are edges for the floating-point rule
                    ex = rd == np.pi / 2
                    check(ex.any(), "no direction exactly on the edge")
                    check(~vm.in_view(rim, False)[ex], "a direction on the edge is in view")
                    same(len(vm.in_view(rim[ex])[0]), 0, "index form of the edge")
                    mix = np.concatenate((rim[ex], [d], -d[None]))
                    same(vm.in_view(mix, False), [False] * ex.sum() + [True, False], "edge and axis together")
                    if kind != "solid":
                        same(vm.in_view(mix, False, tol=1e-3), [True] * (ex.sum() + 1) + [False], "with tolerance")
                ctx.run([kind, list(d), va, n], go)


def g_init(ctx, kind, va, proj, ds, ress, feats):
    n = 0
    for d in ds:
        rv = ref.View(d, va)
        for res in ress:
            for F in feats:
                for form in (True, False):
                    sp = SPELL[proj][n % len(SPELL[proj])]
                    n += 1

                    def go():
                        vm = make(kind, d, va)
                        pt = (1.5, -2, 3.25)
                        img, vecs, mask, mask2, header = vm.init_img(res, pt, features=F, viewproj=sp, indices=form)
                        shape = (res * rv.aspect, res)
                        same(img.shape, shape if F == 1 else (F,) + shape, "image shape")
                        check(img == 0, "image is not zero")
                        check(img.dtype == float, "image is not floating point")
                        vecs = np.asarray(vecs)
                        same(vecs.shape, shape + (3,), "one vector per pixel")
                        check(f"-{proj} " in header, f"projection in header {header!r}")
                        check("-vp 1.5 -2 3.25" in header, f"point in header {header!r}")
                        fl = vecs.reshape(-1, 3)
                        if proj == "vuv":
                            # square cells, enumerated column by column
                            uv = rv.pixels(res) / res
                            close(fl, rv.uv(uv), 1e-7, 0, "vectors of square cells")
                            close(vm.xyz2uv(fl), uv, 1e-6, 0, "square coordinates of the vectors")
                            return
                        pix = rv.pixels(res)
                        if kind == "solid":
                            close(fl, vm.pixel2ray(pix, res), 1e-9, 0, "vectors are those of the pixels")
                        elif proj == "vte":
                            close(fl, vm.solid_pixel2ray(pix, res), 1e-9, 0, "vectors are those of the pixels")
                        else:
                            close(fl, rv.ray(pix / res), 1e-7, 0, "vectors are those of the pixels")
                        # angle to the view direction of the own half
                        ang = rv.angle(fl)
                        if va == 360:
                            ang[res * res:] = np.pi - ang[res * res:]
                        sure = np.abs(ang - rv.H) > 1e-6
                        want = ang < rv.H
                        if form:
                            got = np.zeros(shape, bool)
                            check(isinstance(mask, tuple) and len(mask) == 2, "index form")
                            got[mask] = True
                            same(len(mask[0]), got.sum(), "an element is repeated in the mask")
                        else:
                            got = np.asarray(mask)
                            check(got.dtype == bool, "boolean form")
                            same(got.size, res * res * rv.aspect, "size of the boolean form")
                        same(got.ravel()[sure], want[sure], "mask")
                        # documented use: fill pixels through mask / colour mask
                        gi = got.reshape(shape)
                        k = int(gi.sum())
                        order = mask if form else np.nonzero(gi)
                        val = np.arange(1, k * F + 1.).reshape(k, F)
                        if F == 1:
                            img[mask2 if form else gi] = val[:, 0]
                            same(img[order], val[:, 0], "values written by the mask")
                        else:
                            if form:
                                img[mask2] = val.ravel()
                            else:
                                img[:, np.reshape(mask2, shape)] = val.T
                            for f in range(F):
                                same(img[f][order], val[:, f], "values written by the colour mask")
                        same(np.count_nonzero(img), k * F, "pixels written")
                    ctx.run([list(d), res, F, form], go)


def g_spell(ctx):
    vm = ViewMapper((0, 1, 0), 180)
    for proj, sps in SPELL.items():
        for sp in sps:
            def go():
                a = vm.init_img(4, viewproj=sp)
                b = vm.init_img(4, viewproj=proj)
                close(a[1], b[1], 0, 0, "vectors")
                same(a[4], b[4], "header")
            ctx.run([proj, sp], go)

    def default():
        img, vecs, mask, mask2, header = ViewMapper((0, 1, 0), 180).init_img()
        same(img.shape, (512, 512), "default resolution")
        check("-vta" in header and "-vp 0 0 0" in header, "default projection and point")
    ctx.run(["default"], default)

    def alias():
        """images of the same mapper are independent"""
        a, va, *_ = vm.init_img(5)
        a[:] = 1
        va = np.asarray(va)
        keep = va.copy()
        va[:] = 0
        b, vb, *_ = vm.init_img(5)
        check(b == 0, "second image is not zero")
        close(vb, keep, 1e-12, 0, "vectors of the second image")
    ctx.run(["fresh"], alias)


def g_plane(ctx, ress):
    for bbox in (((0, 0), (1, 1)), ((-1, 2), (3, 4)), ((0, 0), (1, 3))):
        for res in ress:
            def go():
                sf = np.array(bbox[1]) - bbox[0]
                mp = Mapper(sf=sf, bbox=bbox)
                img, vecs, mask, mask2, header = mp.init_img(res)
                a = sf[0] / sf[1]
                shape = (int(round(res * a)), res) if a < 1 else (res, int(round(res / a)))
                same(img.shape, shape, "image shape")
                check(img == 0, "zero")
                c = np.stack(np.mgrid[0:shape[0], 0:shape[1]], 2).reshape(-1, 2) + .5
                vecs = np.reshape(vecs, (-1, 3))
                close(vecs[:, :2], np.array(bbox[0]) + c / shape * sf, 1e-9, 0, "vectors")
                same(np.size(mask[0]), len(c), "every pixel of a planar image is in view")
                e = 1e-6
                edge = np.array([(x, y) for x in (-.5, -e, e, .5, 1 - e, 1 + e, 1.5) for y in (-.5, -e, e, .5, 1 - e, 1 + e, 1.5)])
                v = np.concatenate((np.array(bbox[0]) + edge * sf, np.zeros((len(edge), 1))), 1)
                w = np.all((edge > 0) & (edge < 1), 1)
                same(mp.in_view(v, False), w, "points in the plane view")
                same(mp.in_view(v)[0], np.nonzero(w)[0], "index form")
            ctx.run([bbox, res], go)


def groups(tier):
    q = tier == "quick"
    ds = ref.lattice_dirs(1 if q else 2) + [(1e-4, 0, 1), (.13, -.435, 1)]
    vas = (180, 360, 90, 44, 153, 5) if q else (180, 360, 179, 153, 120, 90, 60, 44, 30, 5, 1)
    g = []
    for va in vas:
        for kind in ("view", "solid"):
            if kind == "solid" and va == 360:
                continue
            g.append((f"in view {kind} {va}", g_inview, kind, va, ds, 8 if q else 24, (0., .01, .2, -.02) if va > 30 else (0., .01)))
            for proj in SPELL:
                if proj == "vte" and va == 360:
                    continue
                g.append((f"init {kind} {proj} {va}", g_init, kind, va, proj, ds[:: 4 if q else 2], (1, 2, 5, 8, 13) if q else range(1, 33), (1, 2, 3, 5)))
    return g + [("spellings", g_spell), ("edge view", g_edge, "view"), ("edge solid", g_edge, "solid"), ("plane", g_plane, range(1, 9 if q else 40))]
