"""All assignments of luminance levels (below and at the threshold, candidate, partial, full sun) to a patch of six pixels at increasing distance from the peak (inside, just inside, just outside the collection radius, far
and opposite), with different solid angles, for every option combination, gray and colour: (a) against an independent scalar model of which pixels are merged, where the new source points, its area and value, and
what remains, in all return forms; (b) with equal luminances, the invariants alone: conserved energy, untouched rays, merged rays above the threshold and within the radius, the same outcome for
every rotation and reversal (thorough: all permutations) of the rays; (c) secondary sources: grouped rays far from the peak."""
import itertools
import math

import numpy as np

from mc.core import check, close, fail, same
from raytools import imagetools
from raytools.evaluate import retina

RULE = "one case per (options, level assignment); trivial without a candidate pixel"

A0 = 6.7967e-05
RAD = math.sqrt(A0 / math.pi)
W = np.array((.265, .67, .065))
HUE = np.array(((1, 1, 1), (2, 1, .5), (.5, 1, 2), (1, .2, 3), (3, .1, 1), (.3, 1.5, .1), (1, 2, 1)))


def patch(axis, dist, turn):
    """directions at the given angles from the axis"""
    axis = np.array(axis, float) / np.linalg.norm(axis)
    e = np.cross(axis, (0, 0, 1) if abs(axis[2]) < .9 else (1, 0, 0))
    e /= np.linalg.norm(e)
    f = np.cross(axis, e)
    return np.array([math.cos(d) * axis + math.sin(d) * (math.cos(t) * e + math.sin(t) * f) for d, t in zip(dist, turn)])


DIST = [0, .8 * RAD, 2.5 * RAD, 3.96 * RAD, 4.1 * RAD, .3, math.pi]
TURN = [0, .3, 2.1, 4.4, 5.5, 1, 0]
OMEGA = np.array([2.1e-5, 3.3e-5, 1.2e-5, 4.7e-5, 1.9e-5, 2.7e-5, 1.e-4])


def model(v, o, rgb, lum, scale=179., peaka=A0, peakt=1e5, peakr=4., peakc=1., peakrad=4., blurtol=.75, blursun=False):
    """(direction, area, value, merged rays) for distinct luminances, lum is the weighted sum of the columns of rgb"""
    cand = sorted((i for i in range(len(lum)) if lum[i] > peakt / scale), key=lambda i: -lum[i])
    if not cand:
        return None
    p = cand[0]
    lim = math.sqrt(peaka / math.pi) * peakrad
    cand = [i for i in cand if math.atan2(np.linalg.norm(np.cross(v[i], v[p])), float(v[i] @ v[p])) < lim]
    near = [lum[i] for i in cand if lum[i] >= lum[p] * blurtol]
    expect = sum(near) / len(near) * peaka * peakc
    total = 0
    take = None
    sums = []
    for i in cand:
        total += lum[i] * o[i]
        sums.append(total)
    if total > expect:
        # as many whole pixels as fit below the expected energy
        n = next(k for k in range(len(sums)) if sums[k] > expect)
        take = cand[:n] or cand
        area = peaka
        val = sum(rgb[i] * o[i] for i in take) / area
    else:
        n = next((k for k in range(len(cand)) if lum[cand[k]] < lum[p] / peakr), 0)
        take = cand[:n] or cand
        if peakc > 1:
            area = peaka
            val = sum(rgb[i] * o[i] for i in take) / area
        else:
            val = rgb[p]
            area = sum(lum[i] * o[i] for i in take) / lum[p]
    d = sum(v[i] * o[i] * lum[i] for i in take)
    d = d / np.linalg.norm(d)
    if blursun:
        with np.errstate(all="ignore"):
            cf = float(retina.blur_sun(area, float(np.sum(val * (W if len(np.atleast_1d(val)) == 3 else 1)))))
        area, val = area * cf, val / cf
    return d, area, val, take, total > expect


def canon(v, o, l):
    m = np.hstack((v, o[:, None], l.reshape(len(o), -1)))
    return m[np.lexsort(np.round(m, 9).T)]


def verify(ctx, v, o, lum, color, opts, distinct, perms):
    scale = opts.get("scale", 179.)
    n = len(lum)
    vals = lum[:, None] * HUE[:n] / (HUE[:n] @ W)[:, None] if color else lum[:, None]
    l = vals if color else lum
    keep = [a.copy() for a in (v, o, l)]
    with np.errstate(all="ignore"):
        v2, o2, l2 = imagetools.normalize_peak(v, o, l, **opts)
        s0 = imagetools.normalize_peak(v, o, l, returnall=False, **opts)
        pv, vr, orr, lr = imagetools.normalize_peak(v, o, l, returnparts=True, **opts)
        pz, vz, oz, lz = imagetools.normalize_peak(v, o, l, returnparts=True, keepzeros=True, **opts)
        v3, o3, l3 = imagetools.normalize_peak(v, o, l, keepzeros=True, **opts)
    for a, b in zip(keep, (v, o, l)):
        same(b, a, "the given rays were changed")
    thr = opts.get("peakt", 1e5) / scale
    if color and np.any(np.abs(lum / thr - 1) < 1e-9):
        return  # weighting the channels may round to either side of the threshold
    if not (lum > thr).any():
        for a, b in ((v2, v), (o2, o), (l2, l), (vr, v), (orr, o), (lr, l), (v3, v), (o3, o), (l3, l)):
            same(a, b, "rays without a peak")
        check(np.all(np.asarray(s0) == 0), "source without a peak")
        return
    for a, b in ((v2, l2), (vr, lr), (vz, lz), (v3, l3)):
        same(np.shape(b), (len(a),) + l.shape[1:], "shape of the values")
    col = [np.reshape(x, (-1, vals.shape[1])) for x in (l2, lr, lz, l3)]
    l2, lr, lz, l3 = col
    # energy
    e0, e1 = (vals * o[:, None]).sum(0), (l2 * o2[:, None]).sum(0)
    w = W if color else np.ones(1)
    close(e1 @ w, e0 @ w, 0, 1e-9, "luminance energy")
    # the other rays
    gone = [i for i in range(n) if not any(np.array_equal(v[i], x) and o[i] == y and np.array_equal(vals[i], z) for x, y, z in zip(v2[:-1], o2[:-1], l2[:-1]))]
    same(len(v2), n - len(gone) + 1, "number of rays")
    rest = [i for i in range(n) if i not in gone]
    for a, b, c in ((v2[:-1], o2[:-1], l2[:-1]), (vr, orr, lr)):
        same(a, v[rest], "remaining directions")
        same(b, o[rest], "remaining solid angles")
        same(c, vals[rest], "remaining values")
    same(vz, v, "directions with zeros kept")
    same(oz[rest], o[rest], "solid angles with zeros kept")
    same(lz[rest], vals[rest], "values with zeros kept")
    check(np.all(lz[gone] == 0), "merged rays keep their value")
    check(np.all(oz[gone] == 0), "merged rays keep their solid angle")
    close(np.vstack((v3, )), np.vstack((v, v2[-1:])), 1e-12, 0, "directions with zeros kept and source")
    close(l3, np.vstack((lz, l2[-1:])), 1e-12, 1e-12, "values with zeros kept and source")
    close(o3, np.append(oz, o2[-1]), 1e-15, 1e-12, "solid angles with zeros kept and source")
    for s in (s0, pv, pz):
        close(np.ravel(s[0]), v2[-1], 1e-12, 0, "direction of the source")
        close(np.ravel(s[1]), o2[-1:], 0, 1e-12, "area of the source")
        close(np.ravel(s[2]), l2[-1], 0, 1e-12, "value of the source")
    # what may be merged
    top = np.argmax(lum)
    lim = math.sqrt(opts.get("peaka", A0) / math.pi) * opts.get("peakrad", 4.)
    for i in gone:
        check(lum[i] > thr, f"ray {i} below the threshold was merged")
        if distinct:
            check(np.arccos(np.clip(v[i] @ v[top], -1, 1)) < lim * (1 + 1e-9), f"ray {i} outside the radius was merged")
    d = (v[gone] * (o[gone] * lum[gone])[:, None]).sum(0)
    close(v2[-1], d / np.linalg.norm(d), 1e-12, 0, "direction of the source")
    if distinct:
        m = model(v, o, vals, lum, **opts)
        same(sorted(gone), sorted(m[3]), "merged rays")
        close(v2[-1], m[0], 1e-12, 0, "direction")
        close(o2[-1], m[1], 0, 1e-9, "area")
        close(l2[-1], m[2], 0, 1e-9, "value")
        if m[4] and not opts.get("blursun"):
            close(o2[-1], opts.get("peaka", A0), 0, 1e-9, "expected area of a fully visible sun")
        if m[4] or opts.get("peakc", 1.) > 1:
            close(e1, e0, 0, 1e-9, "energy per channel")
        ctx.outcome((len(gone), bool(m[4])))
    base = canon(v2, o2, l2)
    for p in perms:
        p = list(p)
        with np.errstate(all="ignore"):
            a = imagetools.normalize_peak(v[p], o[p], l[p], **opts)
        got = canon(*a)
        close(got, base, 1e-12, 1e-9, f"order {p} of the rays")


def g_patch(ctx, axis, color, opts, levels, n, distinct, k, parts, allperms):
    pick = {1: [0], 2: [0, 2], 3: [0, 2, 4], 4: [0, 1, 3, 4], 5: [0, 1, 3, 4, 6], 6: [0, 1, 2, 3, 4, 6], 7: range(7)}[n]
    pick = list(pick)
    v = patch(axis, [DIST[i] for i in pick], [TURN[i] for i in pick])
    if opts.get("peakrad") == 1.5:
        v = patch(axis, [DIST[i] * .4 for i in pick], [TURN[i] for i in pick])
    o = OMEGA[pick].copy()
    if opts.pop("small", False):
        o /= 6
    if not distinct and n > 3:
        # two pixels with equal solid angle and mirrored direction
        o[1] = o[2]
    thr = opts.get("peakt", 1e5) / opts.get("scale", 179.)
    lv = [thr * x for x in levels]
    perms = list(itertools.permutations(range(n))) if allperms else [list(range(n))[::-1]] + [[(i + s) % n for i in range(n)] for s in range(1, n)]
    for c, lev in enumerate(itertools.product(range(len(lv)), repeat=n)):
        if c % parts != k:
            continue
        lum = np.array([lv[i] for i in lev])
        if distinct:
            lum = np.where(lum == thr, lum, lum * (1 + 1e-3 * (np.arange(n) * 3 % 7)))
        ctx.run([list(axis), color, opts, lev], verify, ctx, v, o, lum, color, opts, distinct, perms if c % (1 if allperms else 3) == 0 else perms[:1])


def g_second(ctx, opts, color):
    """secondary sources: groups of at least four bright rays away from the peak"""
    a = np.array((0, 1, 0.))
    spots = [(0, 1, 0), (1, 1, .3), (-1, .5, .4), (0, .1, 1)]
    for k in range(1, len(spots) + 1):
        for bright in itertools.product((1., 3., 5., 40.), repeat=k):
            for num in (2, 4, 6):
                def go():
                    v, o, lum, own = [], [], [], []
                    for s, b in zip(spots[:k], bright):
                        p = patch(s, [RAD * .5 * i for i in range(num)], [2.4 * i for i in range(num)])
                        v.append(p)
                        o += [2e-5 + 1e-6 * i for i in range(num)]
                        lum += [1e5 / 179 * b * (1.01 - .01 * i - .001 * len(v)) for i in range(num)]
                        own += [len(v) - 1] * num
                    v = np.vstack(v)
                    o, lum, own = np.array(o), np.array(lum), np.array(own)
                    if not (lum > 1e5 / 179).any():
                        return
                    vals = lum[:, None] * HUE[own] / (HUE[own] @ W)[:, None] if color else lum[:, None]
                    l = vals if color else lum
                    pv, strays = imagetools.normalize_peak(v, o, l, findsecondary=True, **opts)
                    ref = imagetools.normalize_peak(v, o, l, returnall=False, **opts)
                    for x, y in zip(pv, ref):
                        close(x, y, 1e-12, 1e-12, "source with and without secondary sources")
                    top = own[np.argmax(lum)]
                    want = []
                    for s in range(k):
                        m = (own == s) & (lum > 4e5 / 179)
                        if s != top and m.any():
                            want.append((lum[m].max(), s, m))
                    want.sort(reverse=True, key=lambda x: x[0])
                    tot = sum(m.sum() for _, _, m in want)
                    exp = []
                    for _, s, m in want:
                        if tot > 3:
                            exp.append((v[m].mean(0), o[m].sum(), np.average(vals[m], axis=0, weights=o[m])))
                        tot -= m.sum()
                    same(len(strays), len(exp), "number of secondary sources")
                    for g, e in zip(strays, exp):
                        close(np.ravel(g[0]), e[0], 1e-9, 0, "secondary direction")
                        close(g[1], e[1], 0, 1e-9, "secondary solid angle")
                        close(np.ravel(g[2]), e[2], 0, 1e-9, "secondary value")
                ctx.run([k, bright, num, color], go)


def g_cut(ctx, axis, n):
    """luminances exactly at the peak divided by peakr still belong to the source"""
    v = patch(axis, [DIST[i] for i in range(n)], [TURN[i] for i in range(n)])
    o = OMEGA[:n] / 16
    lev = (4096., 2048., 1024., 1023., 512., 600., 1., 1025.)
    for pick in itertools.permutations(lev, n):
        lum = np.array(pick)
        for r in (2., 4., 8.):
            # the limit for a candidate is also met exactly
            for t in (512., 511., 1024.):
                ctx.run([list(axis), pick, r, t], verify, ctx, v, o, lum, False, dict(scale=1., peakt=t, peakr=r), True, [list(range(n))[::-1]])


def g_limit(ctx, axis, color, n):
    """near-peak luminances on pixels of very different size, total energies on either side of the expected energy"""
    v = patch(axis, [DIST[i] for i in (0, 1, 2, 3)[:n]], [TURN[i] for i in (0, 1, 2, 3)[:n]])
    thr = 1e5 / 179
    for rel in itertools.product((1., .97, .8, .76, .74, .5, .3), repeat=n - 1):
        for share in itertools.product((1., 6., 40.), repeat=n):
            if len(set(share)) == 1:
                continue
            lum = 30 * thr * np.array((1.,) + rel) * (1 - 1e-3 * np.arange(n))
            near = lum >= lum.max() * .75
            for f in (.9, .99, 1.01, 1.1):
                o = np.array(share)
                o = o / (o @ lum) * lum[near].mean() * A0 * f
                ctx.run([list(axis), rel, share, f], verify, ctx, v, o, lum, color, {}, True, [list(range(n))[::-1]])


def g_ring(ctx, color):
    """bright rays beyond the collection radius: up to eight times that radius they stay ordinary rays"""
    lim = RAD * 4
    far = {"just outside": 1.05, "ring": 3., "just inside": 7.9, "beyond": 8.1, "far": 20.}
    for names in itertools.chain.from_iterable(itertools.combinations(far, k) for k in (1, 2, 3)):
        for bright in (5., 20.):
            def go():
                v, o, lum, own = [patch((0, 1, 0), [RAD * .5 * i for i in range(4)], [2.4 * i for i in range(4)])], [], [], []
                for j, nm in enumerate(names):
                    # groups in different directions around the peak
                    dist = [lim * far[nm] + (1e-4 if nm != "just inside" else -1e-4) * i for i in range(5)]
                    v.append(patch((0, 1, 0), dist, [1 + 2.1 * j + 1e-4 * i for i in range(5)]))
                v = np.vstack(v)
                own = np.repeat(np.arange(len(names) + 1), [4] + [5] * len(names))
                o = 2e-5 + 1e-7 * np.arange(len(own))
                lum = 1e5 / 179 * np.where(own == 0, 50., bright) * (1 - 1e-3 * np.arange(len(own)))
                l = lum[:, None] * HUE[own] / (HUE[own] @ W)[:, None] if color else lum
                pv, strays = imagetools.normalize_peak(v, o, l, findsecondary=True)
                want = [j + 1 for j, nm in enumerate(names) if far[nm] > 8]
                # groups are as far from one another as from the peak or are one group
                cen = {j: v[own == j].mean(0) for j in want}
                if len(want) == 2:
                    g = math.acos(np.clip(cen[want[0]] @ cen[want[1]], -1, 1))
                    check(g > 9 * lim, "the groups of the example are too close")
                same(len(strays), len(want), "number of secondary sources")
                for s, j in zip(strays, want):
                    close(np.ravel(s[0]), cen[j], 1e-9, 0, "secondary direction")
                    close(s[1], o[own == j].sum(), 0, 1e-9, "secondary solid angle")
                    close(np.ravel(s[2]), np.ravel(np.average(l[own == j], axis=0, weights=o[own == j])), 0, 1e-9, "secondary value")
            ctx.run([names, bright, color], go)


OPTS = [{}, dict(peakc=1.4), dict(peakr=1.5), dict(blurtol=1.), dict(blursun=True), dict(peaka=1.2e-4, peakrad=3.), dict(scale=1., peakt=5e4),
        dict(peakrad=1.5), dict(small=True), dict(small=True, peakr=20., peakc=2.), dict(peakt=2e5, peakc=.5)]


def groups(tier):
    q = tier == "quick"
    g = []
    lev = (.1, 1., 1.3, 4., 30.)
    for i, op in enumerate(OPTS):
        for color in (False, True):
            n = 5 if q else 7
            parts = 1 if q else 4
            for k in range(parts):
                g.append((f"model {i} {color} {k}", g_patch, ((0, 1, 0), (1, -2, .5), (0, 0, -1))[i % 3], color, dict(op), lev, n, True, k, parts, False))
            g.append((f"ties {i} {color}", g_patch, ((1, 1, 1), (0, 1, 0))[i % 2], color, dict(op), (.5, 2., 10.), 4 if q else 6, False, 0, 1, not q or i < 2))
        for n in (1, 2, 3):
            g.append((f"few {i} {n}", g_patch, (.4, 1, -.3), bool((i + n) % 2), dict(op), lev, n, True, 0, 1, True))
            g.append((f"few {i} {n} b", g_patch, (.4, 1, -.3), bool((i + n + 1) % 2), dict(op), lev, n, True, 0, 1, True))
    g.append(("cut 0", g_cut, (0, 1, 0), 3 if q else 5))
    g.append(("cut 1", g_cut, (.3, -.2, .8), 3 if q else 5))
    for color in (False, True):
        g.append((f"secondary {color}", g_second, {}, color))
        g.append((f"ring {color}", g_ring, color))
        for n in (2, 3) if q else (2, 3, 4):
            g.append((f"limit {color} {n}", g_limit, ((0, 1, 0), (.3, -.2, .8))[n % 2], color, n))
    return g
