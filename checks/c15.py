"""Every direction of an integer lattice plus near-pole directions, each alone, scaled, and in every split of the batch:
the rotation must be proper, carry the direction to +z, and equal the reference view basis (right, up, forward) of
that direction. Element rotations are explored over all axes and pairs of lattice angles (additivity, inverse), reflections over all
ray/normal pairs."""
import itertools
import math

import numpy as np

from mc import ref
from mc.core import check, close, same
from raytools import translate as tr

RULE = "one case per direction, per batch split, per (axis, angle pair), per ray/normal batch; all cases have non-zero rotation except the identity cases"
NEAR = [(1e-3, 0, 1), (0, 1e-3, 1), (1e-4, -1e-4, 1), (-1e-6, 2e-6, 1), (1e-3, 0, -1), (0, -1e-3, -1),
        (1e-4, 1e-4, -1), (-1e-6, 1e-6, -1), (2e-5, 0, -1), (2e-5, 0, 1)]


def dirs(r):
    return [ref.unit(d) for d in ref.lattice_dirs(r)] + [ref.unit(d) for d in NEAR]


def basis(d):
    return np.array(ref.rot_basis(d))


def g_single(ctx, r, lens):
    for d in dirs(r):
        e = basis(d)

        def go(ln):
            ym, pm = tr.rmtx_yp(np.array(d) * ln)
            check(ym.shape == (3, 3) and pm.shape == (3, 3), "matrix shapes")
            m = pm @ ym
            close(m @ m.T, np.eye(3), atol=1e-9, msg="not orthonormal")
            close(np.linalg.det(m), 1., atol=1e-9, msg="not a proper rotation")
            for q, n in ((ym, "yaw"), (pm, "pitch")):
                close(q @ q.T, np.eye(3), atol=1e-9, msg=n + " not orthonormal")
                close(np.linalg.det(q), 1., atol=1e-9, msg=n + " not proper")
            close(m @ np.array(d), (0, 0, 1), atol=1e-8, msg="direction not carried to +z")
            # near the poles the yaw is defined by a vanishing component
            close(m, e, atol=1e-8 if math.hypot(d[0], d[1]) > 1e-2 else 1e-3, msg="view basis (roll)")
            up = m @ np.array((0, 0, 1.))
            check(up[1] >= -1e-9 and abs(up[0]) < 1e-9, "world up rolled out of the view's vertical")
            w = np.array([(1., 2, 3), (-4, 5, -6.)])
            v = (pm @ (ym @ w.T)).T
            close((ym.T @ (pm.T @ v.T)).T, w, atol=1e-8, msg="documented inverse")
            k = tr.rmtx_yp([np.array(d) * ln], keepdims=True)
            close(k[0], ym[None], atol=1e-12, msg="keepdims")
            close(k[1], pm[None], atol=1e-12, msg="keepdims")
        for ln in lens:
            ctx.run([d, ln], go, ln)


def g_batch(ctx, r):
    ds = np.array(dirs(r))
    one = [tr.rmtx_yp(d) for d in ds]
    y1 = np.array([o[0] for o in one])
    p1 = np.array([o[1] for o in one])
    for i in range(len(ds) - 1):
        for w in (2, 3, 7):
            def go():
                b = ds[i:i + w] * (1 + np.arange(len(ds[i:i + w])))[:, None]
                y, p = tr.rmtx_yp(b)
                close(y, y1[i:i + w], atol=1e-9, msg="yaw in a batch")
                close(p, p1[i:i + w], atol=1e-9, msg="pitch in a batch")
                # documented batch use
                x = np.array([(.3, -.2, .9), (1., 2, 3)])
                bx = np.broadcast_to(x, (len(b), 2, 3))
                f = np.einsum("vij,vkj,vli->vkl", y, bx, p)
                for k in range(len(b)):
                    close(f[k], (p1[i + k] @ y1[i + k] @ x.T).T, atol=1e-9, msg="batch forward")
            ctx.run(["batch", i, w], go)

    def whole():
        y, p = tr.rmtx_yp(ds)
        close(y, y1, atol=1e-9, msg="whole batch yaw")
        close(p, p1, atol=1e-9, msg="whole batch pitch")
        y, p = tr.rmtx_yp(ds[::-1], keepdims=True)
        close(y, y1[::-1], atol=1e-9, msg="reversed batch yaw")
        close(p, p1[::-1], atol=1e-9, msg="reversed batch pitch")
    ctx.run(["whole"], whole)
    ctx.bulk(2 * len(ds))


def rod(v, ax, t):
    c, s = math.cos(t), math.sin(t)
    i, j = (ax + 1) % 3, (ax + 2) % 3
    o = list(v)
    o[i], o[j] = c * v[i] - s * v[j], s * v[i] + c * v[j]
    return o


def g_elem(ctx, step):
    v = np.array([ref.unit(d) for d in ref.lattice_dirs(1)] + [(2., -3., .5)])
    angs = list(range(-360, 361, step)) + [1, -7, 89.5]
    for ax in range(3):
        for a in angs:
            def go():
                e = np.array([rod(x, ax, math.radians(a)) for x in v])
                r1 = tr.rotate_elem(v, a, ax)
                close(r1, e, atol=1e-9, msg="rotate_elem")
                close(tr.rotate_elem(v, math.radians(a), ax, degrees=False), e, atol=1e-9, msg="radians")
                m = tr.rmtx_elem(a, ax)
                close((m @ v.T).T, e, atol=1e-9, msg="rmtx_elem")
                close(tr.rmtx_elem(math.radians(a), ax, degrees=False), m, atol=1e-9, msg="rmtx_elem radians")
                close(tr.rotate_elem(r1, -a, ax), v, atol=1e-9, msg="opposite rotation")
                close(r1[:, ax], v[:, ax], atol=1e-12, msg="axis moved")
                close(tr.rmtx_elem(a, ax - 3), m, atol=1e-12, msg="axis counted from the end")
                close(tr.rotate_elem(v, a, ax - 3), r1, atol=1e-12, msg="axis counted from the end")
            ctx.run(["elem", ax, a], go)
            for b in angs[::2]:
                ctx.run(["elem", ax, a, b], lambda: close(
                    tr.rotate_elem(tr.rotate_elem(v, a, ax), b, ax), tr.rotate_elem(v, a + b, ax),
                    atol=1e-9, msg="angles do not add"))
    for a in angs:
        ctx.run(["default axis", a], lambda: close(
            tr.rotate_elem(v, a), [rod(x, 2, math.radians(a)) for x in v], atol=1e-9, msg="default axis"))


def g_reflect(ctx, r):
    ds = np.array([ref.unit(d) for d in ref.lattice_dirs(r)])

    def refl(d, n):
        k = 2 * ref.dot(d, n)
        return [d[q] - k * n[q] for q in range(3)]
    for i, d in enumerate(ds):
        def go():
            e = np.array([refl(d, n) for n in ds])
            out, ok = tr.reflect(ds[i:i + 1], ds)
            close(out, e, atol=1e-9, msg="reflection")
            check(ok, "unit reflections flagged invalid")
            close(np.sum(out * ds, 1), -ds @ d, atol=1e-9, msg="angle with the normal")
            close(np.linalg.norm(out, axis=1), np.ones(len(ds)), atol=1e-9)
            for j in range(0, len(ds), 5):
                back, ok = tr.reflect(out[j:j + 1], ds[j:j + 1])
                close(np.reshape(back, 3), d, atol=1e-9, msg="reflecting twice")
            close(tr.reflect(ds[i:i + 1], ds, returnmasked=True), e, atol=1e-9, msg="masked form")
            z = np.vstack((ds[:3], np.zeros((1, 3)) + 2, ds[3:5]))
            o, ok = tr.reflect(ds[i:i + 1], z)
            exp = [abs(math.hypot(*refl(d, n)) - 1) < 1e-6 for n in z.tolist()]
            check(np.ravel(ok) == exp, "validity mask")
            check(len(tr.reflect(ds[i:i + 1], z, returnmasked=True)) == sum(exp), "masked count")
        ctx.run(["reflect", i], go)
    lens = (.5, .9, .99, .995, .999, .9998, 1 - 1e-8, 1, 1 + 1e-8, 1.0003, 1.002, 1.007, 1.02, 2)
    for i, d in enumerate(ds):
        def lengths():
            rays = np.array([d * ln for ln in lens])
            good = [abs(ln - 1) < 1e-6 for ln in lens]
            out, ok = tr.reflect(rays, ds)
            same(np.asarray(ok), np.repeat(np.array(good)[:, None], len(ds), 1), "reflections of unit length")
            m = tr.reflect(rays, ds, returnmasked=True)
            close(m, out[np.asarray(ok)], atol=1e-12, msg="masked form")
            same(len(m), sum(good) * len(ds), "masked count")
        ctx.run(["lengths", i], lengths)
    for n in (2, 3, 5):
        for k in range(0, len(ds) - n, 3):
            def many():
                out, ok = tr.reflect(ds[k:k + n], ds[::7])
                e = np.array([[refl(d, m) for m in ds[::7]] for d in ds[k:k + n]])
                close(out, e, atol=1e-9, msg="rays x normals")
                check(ok.shape == e.shape[:2], "mask shape")
            ctx.run(["rays x normals", n, k], many)


def groups(tier):
    q = tier == "quick"
    return [("single", g_single, 3 if q else 5, (1, .01, 7.5)), ("batch", g_batch, 2 if q else 4),
            ("elem", g_elem, 15 if q else 5), ("reflect", g_reflect, 1 if q else 3)]
