"""Every lattice point of the 2x1 square (k/N, interior, edges, diagonals, corners) and every direction of an
integer lattice, in all six axis orders and both sign conventions, is pushed along every path of up to 4 conversions
(square -> sphere -> square..., with vectors rescaled for `normalize`, via the disk) and compared with a scalar reference of the
Shirley-Chiu map; the Jacobian is compared with the constant 2*pi (equal area); batches are compared with single calls."""
import itertools
import math

import numpy as np

from mc import ref
from mc.core import check, close
from mc.graph import explore
from raytools import translate as tr

RULE = ("one case per (axis order, convention, conversion path) or (axis order, point set, predicate); "
        "states are (coordinate system, lattice point) pairs, a transition one point pushed through one library call")
PERMS = list(itertools.permutations(range(3)))


def scale(v):
    s = np.array([0.25, 3., 1e-3, 17.])[np.arange(len(v)) % 4]
    return v * s[:, None]


def g_paths(ctx, axes, conv, n, r, maxlen):
    """conv 'sphere': flipu + xsign -1 on the whole sphere; 'upper': defaults"""
    k = np.arange(n + 1) / n
    if conv == "sphere":
        # (u=1 belongs to the upper half, the lower half has u in (1, 2])
        us = np.arange(2 * n + 1) / n
        flipu, xsign = True, -1
    else:
        us = k
        flipu, xsign = False, 1
    pts = [(u, v) for u in us for v in k]
    # the border of the lower square and the border of the upper one are the same
    # circle; the library answers with the upper one, so borders are start
    # points for the upper half only
    if conv == "sphere":
        pts = [p for p in pts if p[0] <= 1 or (1 < p[0] < 2 and 0 < p[1] < 1)]
    uv = np.array(pts)
    xyz = ref.arr(ref.uv2xyz, pts, axes, xsign)
    # disk coordinates (upper sign convention of uv2xy: n on x)
    nodes = dict(uv=uv, xyz=xyz, long=scale(xyz))
    tol = dict(uv=2e-7, xyz=2e-7, long=1e-5)
    edges = [
        ("uv", "xyz", "uv2xyz", lambda a: tr.uv2xyz(a, axes=axes, xsign=xsign)),
        ("xyz", "uv", "xyz2uv", lambda a: tr.xyz2uv(a, axes=axes, flipu=flipu)),
        ("xyz", "uv", "xyz2uv(normalize)",
         lambda a: tr.xyz2uv(a, normalize=True, axes=axes, flipu=flipu)),
        ("xyz", "long", "rescale", scale),
        ("long", "uv", "xyz2uv(normalize,long)",
         lambda a: tr.xyz2uv(a, normalize=True, axes=axes, flipu=flipu)),
    ]
    explore(ctx, ["square", axes, conv], nodes, edges, "uv", maxlen, tol)
    # start from directions
    dirs = [ref.unit(d) for d in ref.lattice_dirs(r)]
    eps = [(1e-9, 0, 1), (1e-5, -1e-5, -1), (1, 1e-8, 1e-8), (-1, -1e-8, 1e-8),
           (1, 1, 1e-7), (1e-8, 1, -1e-6), (1, 1 + 1e-9, 2)]
    dirs += [ref.unit(d) for d in eps]
    dirs = np.array(dirs)
    if conv == "upper":
        dirs = dirs[dirs[:, axes[2]] >= 0]

    def from_dirs():
        uv = tr.xyz2uv(dirs, axes=axes, flipu=flipu)
        top = 2 if conv == "sphere" else 1
        check((uv >= -1e-12) & (uv[:, 0:1] <= top + 1e-9) & (uv[:, 1:2] <= 1 + 1e-9),
              "square coordinates out of range")
        # the half of the square tells the hemisphere
        low = dirs[:, axes[2]] < 0
        check((uv[low, 0] >= 1 - 1e-9) if low.any() else True, "lower hemisphere left of u=1")
        check(uv[~low, 0] <= 1 + 1e-9, "upper hemisphere right of u=1")
        back = tr.uv2xyz(uv, axes=axes, xsign=xsign)
        # directions within rounding of the equator can be mirrored only there
        close(back, dirs, atol=1e-7, msg="xyz2uv->uv2xyz")
        again = tr.xyz2uv(back, axes=axes, flipu=flipu)
        close(again, uv, atol=2e-7, msg="xyz2uv->uv2xyz->xyz2uv")
    ctx.run(["dirs", axes, conv], from_dirs)
    ctx.addstates(len(dirs) * 3)
    ctx.trans(len(dirs) * 3)
    ctx.trace(len(dirs))


def g_area(ctx, n):
    # cell centres off the diagonals; both halves
    h = 1e-5
    for axes in PERMS:
        for xsign in (1, -1):
            c = (np.arange(n) + .37) / n
            u, v = np.meshgrid(np.concatenate((c, c + 1)), (np.arange(n) + .61) / n)
            uv = np.stack((u.ravel(), v.ravel())).T
            w = np.mod(uv, 1) * 2 - 1
            uv = uv[(np.abs(np.abs(w[:, 0]) - np.abs(w[:, 1])) > 8 * h)]

            def go():
                f = lambda a: tr.uv2xyz(a, axes=axes, xsign=xsign)
                du = (f(uv + (h, 0)) - f(uv - (h, 0))) / (2 * h)
                dv = (f(uv + (0, h)) - f(uv - (0, h))) / (2 * h)
                close(np.linalg.norm(np.cross(du, dv), axis=1),
                      np.full(len(uv), 2 * np.pi), atol=2e-5, rtol=0, msg="area density")
                close(np.linalg.norm(f(uv), axis=1), np.ones(len(uv)), atol=1e-12, msg="unit length")
            ctx.run(["area", axes, xsign], go)
            ctx.trans(5 * len(uv))
            ctx.addstates(len(uv))


def g_disk(ctx, n):
    us = np.arange(2 * n + 1) / n
    pts = [(u, v) for u in us for v in np.arange(n + 1) / n]
    uv = np.array(pts)

    def refdisk(u, v):
        low = u > 1
        r, phi = ref.disk(u - 1 if low else u, v)
        return (-1 if low else 1) * math.cos(phi) * r, math.sin(phi) * r

    def go():
        xy = tr.uv2xy(uv)
        close(xy, ref.arr(refdisk, pts), atol=1e-12, msg="uv2xy")
        xyz = tr.uv2xyz(uv)
        r2 = np.sum(xy ** 2, 1)
        n_ = np.where(uv[:, 0] > 1, -1, 1)
        close(xyz[:, 2], n_ * (1 - r2), atol=1e-12, msg="disk/sphere height")
        close(xyz[:, :2], xy * np.sqrt(2 - r2)[:, None], atol=1e-12, msg="disk/sphere")
        # distinct upper cells are distinct directions (bijection of the lattice)
        up = uv[:, 0] <= 1
        for a, nm in ((np.round(xy[up], 9), "disk"), (np.round(xyz[up], 9), "sphere")):
            check(len({tuple(i + 0.) for i in a}) == up.sum(), f"{nm}: two lattice points coincide")
    ctx.run(["disk", n], go)
    ctx.trans(2 * len(uv))
    ctx.addstates(len(uv))


def g_batch(ctx, n):
    """each point alone, as a flat vector, and in every prefix batch"""
    pts = [(u, v) for u in np.arange(2 * n + 1) / n for v in np.arange(n + 1) / n]
    uv = np.array(pts)
    for f, nm in ((lambda a: tr.uv2xyz(a), "uv2xyz"), (tr.uv2xy, "uv2xy")):
        full = f(uv)
        for i, p in enumerate(pts):
            def go():
                close(f(p), full[i:i + 1], atol=1e-14, msg=nm + " of a flat point")
                close(f([p]), full[i:i + 1], atol=1e-14, msg=nm + " of a list")
                close(f(uv[:i + 1]), full[:i + 1], atol=1e-14, msg=nm + " of a prefix")
            ctx.run([nm, p], go)
            ctx.state((nm, p))
            ctx.trans(3)
    # whole-number coordinates given as integers, bare numbers, other floating types
    whole = [(u, v) for u in (0, 1, 2) for v in (0, 1)]
    for f, nm in ((lambda a: tr.uv2xyz(a), "uv2xyz"), (lambda a: tr.uv2xyz(a, axes=(2, 0, 1), xsign=-1), "uv2xyz sphere"), (tr.uv2xy, "uv2xy")):
        for k in range(1, len(whole) + 1):
            for sel in itertools.permutations(whole, k) if k < 3 else itertools.combinations(whole, k):
                def go():
                    want = f(np.array(sel, float))
                    for dt in (int, np.int32, np.uint8, np.float32):
                        close(f(np.array(sel, dt)), want, atol=1e-6 if dt == np.float32 else 1e-14, msg=f"{nm} of {np.dtype(dt)}")
                    close(f(list(sel)), want, atol=1e-14, msg=nm + " of a list of whole numbers")
                ctx.run([nm, "whole", sel], go)
                ctx.trans(6)
    for axes in PERMS:
        for flip in (False, True):
            for nrm in (False, True):
                sel = ref.lattice_dirs(2) if nrm else [d for d in ref.lattice_dirs(1) if sum(abs(i) for i in d) == 1]
                sel = [d for d in sel if d[axes[2]] >= 0 or flip]

                def go():
                    want = tr.xyz2uv(np.array(sel, float), normalize=nrm, axes=axes, flipu=flip)
                    for dt in (int, np.int32, np.int8):
                        close(tr.xyz2uv(np.array(sel, dt), normalize=nrm, axes=axes, flipu=flip), want, atol=1e-12, msg=f"xyz2uv of {np.dtype(dt)}")
                    close(tr.xyz2uv([tuple(d) for d in sel], normalize=nrm, axes=axes, flipu=flip), want, atol=1e-12, msg="xyz2uv of a list of whole numbers")
                ctx.run(["xyz2uv whole", axes, flip, nrm], go)
                ctx.trans(4 * len(sel))
    dirs = np.array([ref.unit(d) for d in ref.lattice_dirs(2)])
    for flip in (False, True):
        full = tr.xyz2uv(dirs, flipu=flip)
        for i, d in enumerate(dirs):
            def go():
                close(tr.xyz2uv(d, flipu=flip), full[i:i + 1], atol=1e-14, msg="flat")
                close(tr.xyz2uv(tuple(d * 5), flipu=flip, normalize=True), full[i:i + 1],
                      atol=1e-12, msg="flat normalize")
                close(tr.xyz2uv(dirs[i:], flipu=flip), full[i:], atol=1e-14, msg="suffix")
            ctx.run(["xyz2uv", flip, d], go)
            ctx.state(("xyz2uv", flip, i))
            ctx.trans(3)


def groups(tier):
    n, r, ln = (24, 4, 4) if tier == "quick" else (64, 7, 6)
    g = []
    for a in PERMS:
        for c in ("sphere", "upper"):
            g.append((f"paths{a}{c}", g_paths, a, c, n, r, ln))
            g.append((f"paths-odd{a}{c}", g_paths, a, c, n + 5, 1, ln))
    g.append(("area", g_area, 4 * n))
    for k in (n, n + 1, 2 * n + 1):
        g.append((f"disk{k}", g_disk, k))
    g.append(("batch", g_batch, 4 if tier == "quick" else 10))
    return g
