"""The position index of both models against an independent scalar model of the published formulas on every point of a lattice of meridians (a degree apart or finer, with the vertical, horizontal and points beside them) x angles from the line of sight
(to the rear, incl. just beside 90 degrees and exactly behind) x view directions (level, tilted, straight up and down). On the lattice itself: one on the line of sight, never below one or above sixteen, sixteen behind, never decreasing outwards along a
meridian in front, equal left and right, equal for views turned about the vertical; one call for all, one per direction, any scaled length, any order, and the form taking the view vector agree; inputs are left alone."""
import math

import numpy as np

from mc import glare, ref
from mc.core import check, close, same
from raytools.evaluate import PositionIndex
from raytools.mapper import ViewMapper

RULE = "one evaluation per (view, meridian, angle, model); all non-trivial"

VIEWS = [(0, 1, 0), (1, 0, 0), (-.6, .8, 0), (1, 2, -.5), (-3, -1, .2), (.2, -.3, -1), (0, 0, 1), (0, 0, -1), (.01, .02, .9), (0, -5, 4)]
SPECIAL = [0, 90, 180, 270, 1e-5, 360 - 1e-5, 90 - 1e-5, 90 + 1e-5, 270 - 1e-5, 270 + 1e-5, 180 - 1e-5, 180 + 1e-5]


def lattice(tier):
    mstep = 2 if tier == "quick" else .5
    astep = 1 if tier == "quick" else .25
    mer = sorted(set(SPECIAL) | set(np.arange(0, 360, mstep).tolist()))
    ang = sorted({0, .001, .05, .5, 1, 2, 89.9, 89.999, 90.001, 90.5, 135.5, 179, 179.99} | {a for a in np.arange(0, 180, astep).tolist() if a != 90})
    return mer, ang


def turned(v, a):
    c, s = math.cos(a), math.sin(a)
    v = np.asarray(v, dtype=float)
    return np.stack((c * v[..., 0] - s * v[..., 1], s * v[..., 0] + c * v[..., 1], v[..., 2]), -1)


def formula(d, guth, mer, ang, dirs):
    p = PositionIndex(guth).positions(ViewMapper(d, 180), dirs)
    same(p.shape, (len(dirs),), "one index per direction")
    want = np.array([glare.position(d, v, guth) for v in dirs])
    A = np.tile(np.array(ang), len(mer))
    skip = np.zeros(len(dirs), bool)
    if not guth:
        skip = A < 1e-4  # no limit on the line of sight in this model: it depends on the meridian
        tiny = A < .01   # tau is ill conditioned there
        close(np.where(tiny, 0, p), np.where(tiny, 0, want), 1e-9, 1e-6, "index of Kim", where=~skip)
    else:
        close(p, want, 1e-9, 1e-6, "index of Guth")
        check(p >= 1 - 1e-12, "index below one")
        check(p <= 16, "index above sixteen")
        same(p[A > 90], np.full(np.sum(A > 90), 16.), "index behind the viewer")
        close(p[A == 0], np.ones(np.sum(A == 0)), 1e-9, 0, "index on the line of sight")
        grid = p.reshape(len(mer), len(ang))
        check(np.diff(grid, axis=1) >= -1e-9, "index decreases outwards")
    if not guth:
        fr = np.array(ang)
        grid = p.reshape(len(mer), len(ang))[:, (fr > .01) & (fr < 90)]
        check(np.diff(grid, axis=1) >= -1e-9, "index decreases outwards")
    return p


def g_view(ctx, d, guth, tier):
    mer, ang = lattice(tier)
    dirs = np.array([glare.direction(d, m, a) for m in mer for a in ang])
    keep = dirs.copy()
    p = ctx.run((d, guth, "formula"), formula, d, guth, mer, ang, dirs)
    ctx.bulk(len(dirs))
    if p is None:
        return
    A = np.tile(np.array(ang), len(mer))
    stable = np.ones(len(dirs), bool) if guth else (A > .04)
    vm = ViewMapper(d, 180)
    pi = PositionIndex(guth)

    def agree(q, msg, sel=slice(None), tol=1e-7):
        s = stable[sel]
        close(np.where(s, q, 0), np.where(s, p[sel], 0), tol, tol, msg)

    def mirrored():
        i = {round(m, 6): k for k, m in enumerate(mer)}
        g = p.reshape(len(mer), len(ang))
        st = stable.reshape(g.shape)
        n = 0
        for m, k in i.items():
            o = i.get(round((360 - m) % 360, 6))
            if o is not None:
                n += 1
                close(np.where(st[k], g[k], 0), np.where(st[k], g[o], 0), 1e-6, 1e-6, f"mirror image of meridian {m}")
        ctx.bulk(n * len(ang))

    ctx.run((d, guth, "mirrored"), mirrored)
    ctx.run((d, guth, "again"), lambda: same(pi.positions(vm, dirs), p, "second call"))
    ctx.run((d, guth, "reversed"), lambda: close(pi.positions(vm, dirs[::-1])[::-1], p, 1e-9, 1e-9, "other order", where=None) if guth else agree(pi.positions(vm, dirs[::-1])[::-1], "other order"))
    ctx.run((d, guth, "vec"), lambda: agree(pi.positions_vec(d, dirs), "view vector given"))
    ctx.run((d, guth, "vec scaled"), lambda: agree(pi.positions_vec(tuple(7. * x for x in d), dirs), "scaled view vector"))
    ctx.run((d, guth, "fortran"), lambda: agree(pi.positions(vm, np.asfortranarray(dirs)), "memory order"))
    ctx.run((d, guth, "strided"), lambda: agree(pi.positions(vm, np.repeat(dirs, 2, 0)[::2]), "strided"))
    for s in (1e-3, .5, 3., 1e4):
        ctx.run((d, guth, "scaled", s), lambda s=s: agree(pi.positions(vm, dirs * s), f"length {s}"))
    mixed = np.resize([1e-3, 1., 250., .4, 9e3], len(dirs))[:, None]
    ctx.run((d, guth, "scaled each"), lambda: agree(pi.positions(vm, dirs * mixed), "lengths differ"))
    for va in (60, 120, 179):
        ctx.run((d, guth, "view angle", va), lambda va=va: agree(pi.positions(ViewMapper(d, va), dirs), f"view angle {va}"))
    step = 7 if tier == "quick" else 31
    for k in range(0, len(dirs), step):
        ctx.run((d, guth, "single", k), lambda k=k: agree(pi.positions(vm, dirs[k:k + 1]), "single direction", slice(k, k + 1)))
    for w in (2, 3, 10):
        for k in range(0, len(dirs), w * 11):
            ctx.run((d, guth, "subset", w, k), lambda w=w, k=k: agree(pi.positions(vm, dirs[k:k + w]), "part of the directions", slice(k, k + w)))
    if math.hypot(d[0], d[1]) > 1e-6:
        for t in (10, 45, 90, 133.3, 180, 270, 359):
            a = math.radians(t)
            ctx.run((d, guth, "turned", t), lambda a=a: agree(pi.positions(ViewMapper(turned(np.array(d, float), a), 180), turned(dirs, a)), "turned about the vertical"))
    ctx.run((d, guth, "kept"), lambda: same(dirs, keep, "given directions changed"))
    if guth:
        ctx.run((d, "exactly behind"), lambda: same(pi.positions(vm, -vm.dxyz.reshape(1, 3)), np.array([16.]), "exactly behind"))
        ctx.run((d, "exactly on axis"), lambda: close(pi.positions(vm, vm.dxyz.reshape(1, 3)), np.array([1.]), 1e-9, 0, "exactly on axis"))
        ctx.run((d, "default"), lambda: same(PositionIndex().positions(vm, dirs), p, "default model"))


def g_pairs(ctx):
    """two model objects used in turns, several views: no state carried over"""
    ds = VIEWS[:5]
    dirs = [np.array([glare.direction(d, m, a) for m in (0, 40, 130, 200) for a in (5, 30, 70, 120)]) for d in ds]
    want = {(i, g): PositionIndex(g).positions(ViewMapper(ds[i]), dirs[i]) for i in range(5) for g in (True, False)}
    objs = {True: PositionIndex(True), False: PositionIndex(False)}
    vms = [ViewMapper(d) for d in ds]
    ops = sorted(want)
    for a in ops:
        for b in ops:
            for c in ops:
                def seq(a=a, b=b, c=c):
                    for i, g in (a, b, c):
                        same(objs[g].positions(vms[i], dirs[i]), want[i, g], "index after other calls")
                ctx.run((a, b, c), seq)


def groups(tier):
    gs = [(f"view {i} {'guth' if g else 'kim'}", g_view, d, g, tier) for i, d in enumerate(VIEWS) for g in (True, False)]
    return gs + [("sequences", g_pairs)]
