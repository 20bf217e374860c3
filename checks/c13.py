"""For every side, every bin of the 2x1 square at every offset of a lattice goes to coordinates and back
(and to the row/column it must have); the same for sky patches through directions, patch interiors (reference directions), and the tolerance
search, whose reference is the set of patches that a square of the tolerance around the point overlaps without leaving the sky. Exact lower
cell edges are tested where they are representable (sides that are powers of two), elsewhere 1e-9 inside the cell, because
k/side is then itself rounded."""
import math
import subprocess

import numpy as np

from mc import ref
from mc.core import check, close, same
from raytools import translate as tr

RULE = ("one case per (side, offset) covering every bin of the grid, per (side, sub-cell offset) covering every sky patch, "
        "and per (side, point, tolerance) for the tolerance search; bulk counts are bins")


def exact(side):
    return side & (side - 1) == 0


def g_bins(ctx, sides):
    for side in sides:
        offs = [1e-9, .1, .25, .5, .75, .999, 1 - 1e-9]
        if exact(side):
            offs.append(0.)
        bn = np.arange(2 * side * side)
        for off in offs:
            def go():
                uv = tr.bin2uv(bn, side, offset=off)
                i, j = bn // side, bn % side
                close(uv, np.stack(((i + off) / side, (j + off) / side)).T, atol=1e-12, msg="bin2uv")
                same(tr.uv2bin(uv, side), bn, "uv2bin(bin2uv)")
                same(tr.uv2ij(uv, side), np.stack((i, j)).T, "uv2ij")
                one = bn < side * side
                same(tr.uv2ij(uv[one], side, aspect=1), np.stack((i, j)).T[one], "uv2ij aspect 1")
                same(tr.uv2ij(uv, side, aspect=1), np.stack((i % side, j)).T, "uv2ij aspect 1 repeats the square")
                check(np.asarray(tr.uv2ij(uv, side)).dtype.kind == "i", "integer indices")
            ctx.run([side, off], go)
            ctx.bulk(len(bn) - 1)
        # scalars agree with arrays
        for b in bn[:: max(1, len(bn) // 40)]:
            def go():
                uv = tr.bin2uv(int(b), side)
                close(np.ravel(uv), [(b // side + .5) / side, (b % side + .5) / side], atol=1e-12)
                same(np.ravel(tr.uv2bin(uv, side)), [b], "scalar bin")
            ctx.run([side, "scalar", int(b)], go)
        # different offsets in u and v: every point of the cell belongs to it
        for ou in offs:
            for ov in offs:
                def go():
                    uv = np.stack(((bn // side + ou) / side, (bn % side + ov) / side)).T
                    same(tr.uv2bin(uv, side), bn, "point inside the cell")
                ctx.run([side, "cell", ou, ov], go)
                ctx.bulk(len(bn) - 1)


def g_sky(ctx, sides):
    for side in sides:
        bn = np.arange(side * side)

        def go():
            xyz = tr.skybin2xyz(bn, side)
            exp = np.array([ref.uv2xyz((b // side + .5) / side, (b % side + .5) / side) for b in bn])
            close(xyz, exp, atol=1e-9, msg="patch centre")
            check(xyz[:, 2] > 0, "patch centre below horizon")
            same(tr.xyz2skybin(xyz, side), bn, "xyz2skybin(skybin2xyz)")
            same(tr.xyz2skybin(xyz * 4.3, side, normalize=True), bn, "with normalize")
        ctx.run([side, "centres"], go)
        ctx.bulk(len(bn) - 1)

        def below():
            extra = np.arange(side * side, 2 * side * side)
            close(tr.skybin2xyz(extra, side), np.tile((0, 0, -1.), (len(extra), 1)), atol=1e-12,
                  msg="bins past the hemisphere point to the nadir")
            dn = np.array([ref.unit(d) for d in ref.lattice_dirs(3) if d[2] < 0])
            check(tr.xyz2skybin(dn, side) >= side * side, "direction below the horizon has a patch")
            up = np.array([ref.unit(d) for d in ref.lattice_dirs(3) if d[2] > 0])
            b = tr.xyz2skybin(up, side)
            check((b >= 0) & (b < side * side), "direction above the horizon has no patch")
        ctx.run([side, "below"], below)
        for ou in (.01, .3, .5, .83, .99):
            for ov in (.02, .37, .5, .71, .99):
                def go():
                    p = [((b // side + ou) / side, (b % side + ov) / side) for b in bn]
                    xyz = ref.arr(ref.uv2xyz, p)
                    same(tr.xyz2skybin(xyz, side), bn, "direction inside patch")
                ctx.run([side, "inside", ou, ov], go)
                ctx.bulk(len(bn) - 1)


def g_tol(ctx, sides):
    for side in sides:
        for off in ((.5, .5), (.1, .5), (.9, .5), (.5, .08), (.5, .93), (.1, .1), (.93, .91)):
            for tol in (.05, .2, .45, .51, .8):
                for b in range(2 * side * side):
                    u, v = (b // side + off[0]) / side, (b % side + off[1]) / side

                    def go():
                        got = tr.xyz2skybin(ref.uv2xyz(u, v), side, tol=tol)
                        # n.b. the default convention mirrors the lower hemisphere:
                        # only upper directions have neighbours
                        exp = set()
                        if u < 1:
                            lo = (u * side - tol, v * side - tol)
                            hi = (u * side + tol, v * side + tol)
                            for i in range(side):
                                for j in range(side):
                                    if lo[0] < i + 1 and hi[0] >= i and lo[1] < j + 1 and hi[1] >= j:
                                        exp.add(i * side + j)
                            same(np.asarray(got), sorted(exp), "patches within tolerance")
                        else:
                            check(len(got) == 0 or max(got) < side * side, "patch out of range")
                    ctx.run([side, "tol", off, tol, b], go)


def rcalc(args, data, cols):
    r = subprocess.run(["rcalc"] + args, input=data, capture_output=True)
    check(r.returncode == 0, f"rcalc: {r.stderr[:200]!r}")
    return np.array(r.stdout.split(), float).reshape(-1, cols)


def g_cal(ctx, sides):
    """the Radiance expressions of the same numbering, evaluated by rcalc"""
    flat = [e.replace("\n", "") for e in (tr.scxyzcal, tr.scbinscal)]
    dn = np.array([ref.unit(d) for d in ref.lattice_dirs(3) if d[2] < 0])
    for side in sides:
        bn = np.arange(side * side)

        def centres():
            got = rcalc(["-f", "rayinit.cal", "-e", f"bin=$1;side={side}", "-e", flat[0], "-e", "$1=Dx;$2=Dy;$3=Dz"], "\n".join(map(str, bn)).encode() + b"\n", 3)
            close(got, tr.skybin2xyz(bn, side), 1e-7, 2e-6, "direction of a bin by the Radiance expression")
        ctx.run([side, "expression", "centres"], centres)

        def bins():
            p = np.array([((b // side + ou) / side, (b % side + ov) / side) for b in bn for ou, ov in ((.5, .5), (.03, .4), (.97, .8), (.3, .02), (.6, .98))])
            xyz = np.vstack((ref.arr(ref.uv2xyz, p), dn))
            got = rcalc(["-if3", "-f", "rayinit.cal", "-e", f"Dx=$1;Dy=$2;Dz=$3;side={side}", "-e", flat[1], "-e", "$1=bin"], xyz.astype("<f4").tobytes(), 1).ravel()
            n = len(p)
            same(got[:n].astype(int), np.repeat(bn, 5), "bin by the Radiance expression")
            check(got[n:] >= side * side, "direction below the horizon has a patch by the Radiance expression")
        ctx.run([side, "expression", "bins"], bins)
        ctx.bulk(7 * len(bn))


def g_large(ctx, sides):
    """sides whose bin numbers leave 32 bit integers (and the exact range of 32 bit floats)"""
    for side in sides:
        k = np.unique([0, 1, 2, side // 3, side // 2 - 1, side // 2, side - 2, side - 1])
        i, j = (a.ravel() for a in np.meshgrid(np.concatenate((k, k + side)), k, indexing="ij"))
        bn = i.astype(np.int64) * side + j
        for off in (.1, .25, .5, .75, .9):
            def go():
                uv = tr.bin2uv(bn, side, offset=off)
                close(uv, np.stack(((i + off) / side, (j + off) / side)).T, atol=1e-12, msg="bin2uv")
                same(tr.uv2ij(uv, side), np.stack((i, j)).T, "uv2ij")
                same(tr.uv2bin(uv, side), bn, "uv2bin(bin2uv)")
                up = bn < side * side
                # directions: a cell of the largest sides is still > 1e8 times the resolution of the coordinates
                same(tr.xyz2skybin(tr.skybin2xyz(bn[up], side), side), bn[up], "xyz2skybin(skybin2xyz)")
            ctx.run([side, "large", off], go)
            ctx.bulk(len(bn) - 1)


def groups(tier):
    top = 24 if tier == "quick" else 64
    sides = list(range(1, top + 1)) + [32, 49, 64, 100]
    large = [2 ** 15, 32769, 46341, 65536] + ([4099, 100003, 2 ** 18] if tier != "quick" else [])
    return ([("large", g_large, large)] + [(f"cal{k}", g_cal, sides[k::4]) for k in range(4)] + [(f"bins{k}", g_bins, sides[k::4]) for k in range(4)] +
            [(f"sky{k}", g_sky, sides[k::4]) for k in range(4)] +
            [(f"tol{s}", g_tol, [s]) for s in ((1, 2, 3, 4, 6, 7) if tier == "quick" else range(1, 14))])
