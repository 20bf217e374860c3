"""For ray sets over all assignments of luminance levels to five directions, for luminance and colour sets and several options: all permutations of the rays; every ray split into two or three parts of any ratio; directions
scaled by powers and odd factors; view and rays turned together about the vertical in 30 degree steps (all view elevations but straight up and down); left-right mirroring; luminance, scale factor and threshold scaled
against each other (each metric must scale with its own power or not at all); every two-part partition of the rays, on which each metric declared safe to sum must add up
(areas rescaled for fewer than 101 rays; unscaled for partitions of 240 rays away from the edge, where the area is that of the view); check_safe2sum for every list of up to three metrics."""
import itertools
import math
import warnings

import numpy as np

from mc import glare, ref
from mc.core import check, close, same
from raytools.evaluate import BaseMetricSet, ColorMetricSet, MetricSet
from raytools.mapper import ViewMapper

RULE = "one case per (ray set, transformation); trivial for the identity"

PAL = [(0, 2), (15, 20), (75, 50), (165, 28), (220, 61), (300, 80)]
OM = np.array((.01, .5, .2, 1.3, .03, .7))
LEV = (0., 1., 15., 500.)
W = np.array((.265, .67, .065))
HUE = np.array(((1, 1, 1), (2, 1, .5), (.5, 1, 2), (1, .2, 3), (3, .1, 1), (.3, 1.5, .1)))
COUNT = ("avgraylum", "density")


def rays(d, idx):
    return np.array([glare.direction(d, *PAL[i]) for i in idx])


def evaluate(d, va, v, o, l, color=False, **kw):
    vm = ViewMapper(d, va)
    n = list(glare.ALL)
    with np.errstate(all="ignore"):
        if color:
            s = ColorMetricSet(v, o, l, vm, n + ["irradiance"], vlambda=tuple(W), **kw)
            n = n + ["irr0", "irr1", "irr2"]
        else:
            s = MetricSet(v, o, l, vm, n, **kw)
        r = s()
    check(len(r) == len(n), f"{len(r)} values for {n}")
    return dict(zip(n, r))


def near(a, b, skip=(), what=""):
    faint = b["illum"] > 0 and abs(b["backlum"]) * math.pi < 1e-9 * b["illum"]
    for k in b:
        if k in skip or (faint and k in ("backlum", "ugr", "ugp")):
            continue
        close(a[k], b[k], 1e-9, 1e-7, f"{what}: {k}")


def undecided(l, color, **kw):
    """relative thresholds within rounding of a level"""
    return False


def g_order(ctx, view, color, opts, n, part, parts, allp):
    d, va = view
    v = rays(d, range(n))
    perms = list(itertools.permutations(range(n)))
    for c, lev in enumerate(itertools.product(range(len(LEV)), repeat=n)):
        if c % parts != part:
            continue
        lum = np.array([LEV[i] for i in lev]) * (1 + .03 * np.arange(n))
        l = lum[:, None] * HUE[:n] if color else lum
        o = OM[:n]

        def go():
            base = evaluate(d, va, v, o, l, color, **opts)
            for j, p in enumerate(perms):
                if allp or j % 24 == c % 24 or j == len(perms) - 1:
                    p = list(p)
                    near(evaluate(d, va, v[p], o[p], l[p], color, **opts), base, what=f"order {p}")
        ctx.run([view, color, opts, lev, "order"], go)

        def split():
            base = evaluate(d, va, v, o, l, color, **opts)
            for i in range(n):
                for fr in ((.5, .5), (.9, .1), (.2, .3, .5)):
                    k = [i] * len(fr)
                    vv = np.vstack((np.delete(v, i, 0), v[k]))
                    oo = np.append(np.delete(o, i), o[i] * np.array(fr))
                    ll = np.concatenate((np.delete(l, i, 0), l[k]))
                    near(evaluate(d, va, vv, oo, ll, color, **opts), base, COUNT, f"ray {i} split")
        ctx.run([view, color, opts, lev, "split"], split)

        def length():
            base = evaluate(d, va, v, o, l, color, **opts)
            for f in (2., .125, 3.7, 1e-3, 1e5):
                near(evaluate(d, va, v * f, o, l, color, **opts), base, what=f"length {f}")
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                check(np.array_equal(list(evaluate(d, va, v, o, l, color, warnings=True, **opts).values()), list(base.values()), equal_nan=True), "values with warnings")
            near(evaluate(tuple(3.3 * i for i in d), va, v * np.arange(1, n + 1)[:, None], o, l, color, **opts), base, what="different lengths")
        ctx.run([view, color, opts, lev, "length"], length)

        def turned():
            base = evaluate(d, va, v, o, l, color, **opts)
            for a in range(30, 360, 30) if allp or c % 5 == 0 else (90, 210):
                vv = np.array([ref.rot_z(i, a) for i in v])
                near(evaluate(ref.rot_z(d, a), va, vv, o, l, color, **opts), base, what=f"turned by {a}")
            # mirrored left-right
            m = np.array([glare.direction(d, -PAL[i][0], PAL[i][1]) for i in range(n)])
            near(evaluate(d, va, m, o, l, color, **opts), base, what="mirrored")
        ctx.run([view, color, opts, lev, "turned"], turned)


def g_length(ctx, view, color, n):
    """directions of any length, for partial, half and full-sphere views; a view direction of any length"""
    d, va = view
    v, o = rays(d, range(n)), OM[:n]
    for c, lev in enumerate(itertools.product(range(len(LEV)), repeat=n)):
        lum = np.array([LEV[i] for i in lev]) * (1 + .03 * np.arange(n))
        l = lum[:, None] * HUE[:n] if color else lum

        def go():
            for area in (False, True):
                base = evaluate(d, va, v, o, l, color, omega_as_view_area=area)
                for f in (2., .125, 3.7, 1e-3, 1e5):
                    near(evaluate(d, va, v * f, o, l, color, omega_as_view_area=area), base, what=f"length {f}")
                for i in range(n):
                    w = v.copy()
                    w[i] *= (3., .2)[i % 2]
                    near(evaluate(d, va, w, o, l, color, omega_as_view_area=area), base, what=f"length of direction {i}")
                near(evaluate(tuple(3.3 * i for i in d), va, v * np.arange(1, n + 1)[:, None], o, l, color, omega_as_view_area=area), base, what="different lengths")
                keep = v * 2.5
                given = keep.copy()
                evaluate(d, va, given, o, l, color, omega_as_view_area=area)
                same(given, keep, "given directions changed")
        ctx.run([view, color, lev], go)


def g_edge(ctx, view, color, n):
    """bright rays overlapping the edge of the view anywhere in the list"""
    d, va = view
    i = np.arange(n)
    dim = np.array([glare.direction(d, k * 137.50776, math.sqrt((k + .5) / n) * va * .45) for k in i])
    spots = [(20, va / 2 + .4), (200, va / 2 - .3), (110, va / 2 + .8)]
    for k in range(1, 4):
        v = np.vstack((dim, [glare.direction(d, *p) for p in spots[:k]]))
        o = np.append(np.full(n, .02), (.003, .02, .05)[:k])
        lum = np.append(1 + .01 * i, (900., 700., 800.)[:k])
        l = lum[:, None] * HUE[np.arange(len(lum)) % 6] if color else lum
        base = []

        def order(p):
            if not base:
                base.append(evaluate(d, va, v, o, l, color))
            near(evaluate(d, va, v[p], o[p], l[p], color), base[0], what="order")
        t = n + k
        seqs = {tuple((j + s) % t for j in range(t)) for s in range(t)}
        seqs |= {tuple((s - j) % t for j in range(t)) for s in range(t)}
        # bright rays apart from each other
        for pos in itertools.permutations((0, 1, n // 2, t - 1), k):
            rest = iter(range(n))
            at = dict(zip(pos, range(n, t)))
            seqs.add(tuple(at[j] if j in at else next(rest) for j in range(t)))
        for p in sorted(seqs):
            ctx.run([view, color, k, p[:3], p[-2:]], order, list(p))


# power of the scale by which each metric grows when scale and threshold grow together
POWER = dict(illum=1, avglum=1, maxlum=1, avgraylum=1, pwavglum=1, tasklum=1, backlum=1, backlum_true=1, srcillum=1, threshold=1, dgp_t1=1, pwsl2=2, gcr=0, pwgcr=0, loggcr=0, logpwgcr=0, density=0, view_area=0, srcarea=0,
             irr0=1, irr1=1, irr2=1)


def g_scale(ctx, view, color, n):
    d, va = view
    v, o = rays(d, range(n)), OM[:n]
    for lev in itertools.product(range(len(LEV)), repeat=n):
        lum = np.array([LEV[i] for i in lev]) * (1 + .03 * np.arange(n))
        l = lum[:, None] * HUE[:n] if color else lum
        for thr in (2000., 4.3):
            def go():
                base = evaluate(d, va, v, o, l, color, threshold=thr)
                for f in (.5, 3., 10.):
                    t = thr * f if thr > 100 else thr
                    a = evaluate(d, va, v, o, l, color, threshold=t, scale=179. * f)
                    want = {k: base[k] * f ** POWER[k] for k in base if k in POWER}
                    want["backlum"] = base["backlum"] * f
                    near(a, want, what=f"scale times {f}")
                    near(evaluate(d, va, v, o, l * f, color, threshold=t), a, what=f"luminances times {f} against scale")
                    # contrast ratios do not depend on the threshold either
                    b = evaluate(d, va, v, o, l, color, threshold=thr, scale=179. * f)
                    near(b, {k: want[k] for k in ("illum", "avglum", "maxlum", "gcr", "pwgcr", "loggcr", "avgraylum", "pwavglum", "tasklum", "density", "backlum")
                             if k != "backlum"} | dict(backlum=b["backlum"]), what=f"scale alone times {f}")
            ctx.run([view, color, lev, thr], go)


def g_sum(ctx, view, color, n, opts):
    d, va = view
    v, o = rays(d, range(n)), OM[:n]
    cls = ColorMetricSet if color else MetricSet
    safe = [k for k in glare.ALL if cls.check_safe2sum([k])]
    for lev in itertools.product(range(len(LEV)), repeat=n):
        lum = np.array([LEV[i] for i in lev]) * (1 + .03 * np.arange(n))
        l = lum[:, None] * HUE[:n] if color else lum

        def go():
            base = evaluate(d, va, v, o, l, color, **opts)
            ks = safe + [k for k in base if k.startswith("irr")]
            for r in range(1, n):
                for p in itertools.combinations(range(n), r):
                    p = list(p)
                    q = [i for i in range(n) if i not in p]
                    a, b = evaluate(d, va, v[p], o[p], l[p], color, **opts), evaluate(d, va, v[q], o[q], l[q], color, **opts)
                    for k in ks:
                        f = [1, 1, 1]
                        if k in ("avglum", "density"):
                            f = [x["view_area"] for x in (a, b, base)]
                        close(a[k] * f[0] + b[k] * f[1], base[k] * f[2], 1e-9, 1e-8, f"sum of {k} over rays {p} and {q}")
        ctx.run([view, color, lev, opts], go)


def g_many(ctx, view, parts):
    """partitions of many rays away from the edge: the same view area without rescaling"""
    d, va = view
    n = 240
    i = np.arange(n)
    t, a = np.sqrt((i + .5) / n) * math.radians(va * .3), i * 137.50776
    v = np.array([glare.direction(d, x, math.degrees(y)) for x, y in zip(a, t)])
    o = 1e-3 * (1 + i % 5)
    for seed in range(parts):
        for color in (False, True):
            def go():
                lum = np.array(LEV)[(i * 7 + seed) % 4] * (1 + .001 * i)
                l = lum[:, None] * HUE[i % 6] if color else lum
                cls = ColorMetricSet if color else MetricSet
                base = evaluate(d, va, v, o, l, color)
                close(base["view_area"], 2 * math.pi * (1 - math.cos(math.radians(va / 2))), 1e-9, 1e-9, "view area")
                ks = [k for k in glare.ALL if cls.check_safe2sum([k])] + [k for k in base if k.startswith("irr")]
                for mod in (2, (3, 1), (7, 3), (0, 120)):
                    m = i % mod == seed % 2 if isinstance(mod, int) else (i < mod[1] if mod[0] == 0 else i % mod[0] <= mod[1])
                    if m.sum() < 101 or (~m).sum() < 101:
                        continue
                    x, y = evaluate(d, va, v[m], o[m], l[m], color), evaluate(d, va, v[~m], o[~m], l[~m], color)
                    for k in ks:
                        close(x[k] + y[k], base[k], 1e-9, 1e-8, f"sum of {k}")
            ctx.run([view, seed, color], go)


def g_rescaled(ctx, view, n):
    """many rays whose solid angles are corrected to the view area, in other orders"""
    d, va = view
    i = np.arange(n)
    ang = np.degrees(np.arccos(1 - (1 - math.cos(math.radians(va / 2))) * (i + .5) / n))
    v = np.array([glare.direction(d, k * 137.50776, float(a)) for k, a in zip(i, ang)])
    area = 2 * math.pi * (1 - math.cos(math.radians(va / 2)))
    for total in (.97, 1.02, 1.2):
        o = 1. + i * 7 % 11 / 5.
        o *= area * total / o.sum()
        lum = np.array(LEV)[(i * 5 + 1) % 4] * (1 + .001 * i)
        for color in (False, True):
            l = lum[:, None] * HUE[i % 6] if color else lum
            base = []
            for p in [i[::-1], np.roll(i, n // 3), np.roll(i, 1), i * 7 % n if n % 7 else i * 11 % n, np.argsort(o, kind="stable"), np.argsort(-lum, kind="stable"), np.argsort(i % 13, kind="stable")]:
                def go():
                    if not base:
                        base.append(evaluate(d, va, v, o, l, color))
                    near(evaluate(d, va, v[p], o[p], l[p], color), base[0], what="order")
                ctx.run([view, n, total, color, p[:4].tolist()], go)


def g_names(ctx):
    sets = {BaseMetricSet: ["illum", "avglum", "density"], MetricSet: ["illum", "avglum", "density", "pwsl2", "srcillum"], ColorMetricSet: ["illum", "avglum", "density", "pwsl2", "srcillum", "irradiance"]}
    for cls, safe in sets.items():
        for k in (1, 2, 3):
            for l in itertools.product(sorted(set(cls.allmetrics)), repeat=k):
                if k == 3 and len(set(l) & set(safe)) < 2:
                    continue
                ctx.run([cls.__name__, l], same, bool(cls.check_safe2sum(list(l))), set(l) <= set(safe), "safe to sum")


VIEWS = [((0, 1, 0), 180), ((2, -1, .7), 180), ((-1, -1, -3), 180)]


def groups(tier):
    q = tier == "quick"
    opts = [dict(), dict(threshold=5., scale=100.), dict(lowlight=True, scale=.7, threshold=100.5), dict(guth=False)]
    g = [("names", g_names)]
    for view in (((0, 1, 0), 360), ((1, -2, .5), 360), ((0, 1, 0), 90), ((1, 1, -.3), 150)):
        for color in (False, True):
            g.append((f"length {view} {color}", g_length, view, color, 3 if q else 4))
    for view in (((0, 1, 0), 90), ((1, -2, .5), 180), ((.2, -.1, -1), 60)):
        for color in (False, True):
            g.append((f"edge {view} {color}", g_edge, view, color, 40 if q else 150))
    for i, op in enumerate(opts):
        for color in (False, True):
            parts = 4 if q else 4
            for p in range(1 if q else parts):
                g.append((f"order {i} {color} {p}", g_order, VIEWS[i % 3], color, op, 4 if q else 5, p, 3 if q else parts, not q))
    for j, vw in enumerate(VIEWS):
        for color in (False, True):
            g.append((f"scale {j} {color}", g_scale, vw, color, 3 if q else 5))
            g.append((f"sum {j} {color}", g_sum, vw, color, 4 if q and j == 0 else 3 if q else 5, (dict(), dict(threshold=900.), dict(threshold=101., scale=3.))[j]))
        for n in (90, 130, 640, 1500) if q else (90, 101, 130, 300, 640, 1500, 4001):
            g.append((f"rescaled {j} {n}", g_rescaled, vw, n))
        g.append((f"many {j}", g_many, vw, 8 if q else 64))
    return g
