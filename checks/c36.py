"""An independent scalar model (mc/glare.py, plain Python loops over rays, published formulas) is compared with every metric of MetricSet and BaseMetricSet: (a) every set of up to four (thorough: five) of eleven
directions (on axis, above, below, beside, at the task radius, at the edge, outside, behind) with every assignment of luminance levels (zero, low, at, just above and far above the threshold),
with the options cycling; (b) every combination of threshold (fixed, exactly at a level, limit 100, relative), scale, low-light correction, position model, task radius and view on selected sets; (c) scenes dimmed to 1e-12 and brightened to 1e6 of these levels. Metrics are read one
by one and as the called list; scores must stay in range. Source tests at exactly the threshold use scales that are powers of two."""
import itertools
import math

import numpy as np

from mc import glare
from mc.core import check, close, raises, same
from raytools.evaluate import BaseMetricSet, MetricSet
from raytools.mapper import ViewMapper

RULE = "one case per (directions, luminance levels, solid angles, options); trivial without a ray in view"

# (clockwise from up, angle from the line of sight)
PAL = [(0, 0), (10, 18), (70, 50), (170, 25), (215, 61), (90, 45), (-90, 29.99), (0, 30.01), (300, 89), (20, 93), (135, 176), (40, 4)]
OMEGA = [(.01, .5, .2, 1.3, .03), (1e-4, 6e-5, 2., .1, .4)]
LEVELS = (0., 40., 2000., 2100., 90000.)
VIEWS = [((0, 1, 0), 180), ((1, 2, -.5), 180), ((-3, 1, .2), 120), ((0, 0, 1), 180), ((.2, -.3, -1), 150)]
THR = (2000., 100.5, 100., 5., 1.5)
OPTS = [dict(threshold=t, scale=s, lowlight=low, guth=g) for t in THR for s in (1., 2., 179., .25) for low in (False, True) for g in (True, False)]
DEGENERATE = ("ugr", "ugp", "backlum")


def verify(ctx, view, idx, lev, omega, opts, dim=1.):
    d, va = view
    if not opts["guth"] and 0 in idx:
        # the model of Kim has no value on the line of sight: its limit depends on the meridian
        idx = tuple(11 if i == 0 else i for i in idx)
    v = [glare.direction(d, *PAL[i]) for i in idx]
    scale = opts["scale"]
    l = []
    for i in lev:
        x = LEVELS[i]
        if x == 2000. and math.frexp(scale)[0] != .5:
            x = 1990.
        l.append(x / scale * dim)
    o = list(OMEGA[omega][:len(idx)])
    m, src, n = glare.metrics(d, va, v, o, l, **opts)
    if n == 0:
        return
    thr = m["threshold"]
    # relative thresholds within rounding of a level decide either way
    if opts["threshold"] <= 100 and any(abs(x * scale - thr) < 1e-7 * thr for x in l):
        return
    if dim != 1 and any(abs(x * scale - thr) < 1e-7 * thr for x in l):
        return
    vm = ViewMapper(d, va)
    V, O, L = np.array(v), np.array(o), np.array(l)
    with np.errstate(all="ignore"):
        s = MetricSet(V, O, L, vm, list(glare.ALL), **opts)
        got = dict(zip(glare.ALL, s()))
        faint = m["illum"] > 0 and m["backlum"] * math.pi < 1e-9 * m["illum"]
        for k in glare.ALL:
            if faint and k in DEGENERATE and any(src):
                continue
            close(got[k], m[k], 1e-9, 1e-7, k)
        b = BaseMetricSet(V, O, L, vm, list(glare.BASE), scale=scale, guth=opts["guth"])
        for k, x in zip(glare.BASE, b()):
            close(x, m[k], 1e-9, 1e-7, f"{k} of the base class")
        one = MetricSet(V, O, L, vm, **opts)
        for k in ("dgp", "ugp", "threshold"):
            if not (faint and k in DEGENERATE):
                close(getattr(one, k), m[k], 1e-9, 1e-7, f"{k} alone")
        same(one.src_mask, src, "sources")
    if np.isfinite(got["dgp"]):
        check(got["dgp"] <= 1, "DGP above one")
    for k, lo, hi in (("ugr", 0, np.inf), ("ugp", 0, 1)):
        if not np.isnan(got[k]):
            check(lo <= got[k] <= hi, f"{k} out of range: {got[k]}")
    same((V, O, L)[2], np.array(l), "luminances changed")
    ctx.outcome((tuple(src), round(float(np.nan_to_num(got["dgp"])), 3)))


def g_sets(ctx, k, levels, part, parts):
    n = 0
    for idx in itertools.combinations(range(11), k):
        for lev in itertools.product(levels, repeat=k):
            n += 1
            if n % parts != part:
                continue
            view, opts = VIEWS[n // parts % len(VIEWS)], OPTS[n // parts // len(VIEWS) % len(OPTS)]
            ctx.run([view, idx, lev, n % 2, opts], verify, ctx, view, idx, lev, n // 3 % 2, opts)


def g_opts(ctx, sets, levels, part, parts):
    n = 0
    for view in VIEWS:
        for opts in OPTS:
            for idx in sets:
                for lev in itertools.product(levels, repeat=len(idx)):
                    n += 1
                    if n % parts == part:
                        ctx.run([view, idx, lev, opts], verify, ctx, view, idx, lev, 0, opts)


def g_dim(ctx, part, parts):
    """the same scenes in starlight and in front of the sun"""
    n = 0
    for dim in (1e-12, 1e-9, 3e-8, 1e-6, 1e-5, 1e-4, 1e-2, 1e3, 1e6):
        for idx in ((0, 1, 3), (1, 5, 10), (2, 4, 8, 9), (5,), (0, 6, 7, 8)):
            for lev in itertools.product((0, 1, 2, 4), repeat=len(idx)):
                n += 1
                if n % parts == part:
                    view, opts = VIEWS[n // parts % len(VIEWS)], OPTS[n // parts // len(VIEWS) % len(OPTS)]
                    ctx.run([dim, view, idx, lev, opts], verify, ctx, view, idx, lev, 0, opts, dim)


def g_extra(ctx):
    """task radius, defaults, names"""
    view = VIEWS[0]
    for tr in (5., 18.01, 17.99, 30., 50.5, 90.):
        for lev in itertools.product((1, 3, 4), repeat=4):
            for thr in (5., 2000.):
                def go():
                    v = [glare.direction(view[0], *PAL[i]) for i in (0, 1, 2, 3)]
                    l = [LEVELS[i] / 179. for i in lev]
                    m, src, n = glare.metrics(*view, v, OMEGA[0], l, threshold=thr, tradius=tr)
                    if any(abs(x * 179. - m["threshold"]) < 1e-7 * m["threshold"] for x in l):
                        return
                    with np.errstate(all="ignore"):
                        s = MetricSet(np.array(v), np.array(OMEGA[0][:4]), np.array(l), ViewMapper(*view), ["tasklum", "threshold", "srcarea", "dgp"], threshold=thr, tradius=tr)
                        close(s(), [m[i] for i in ("tasklum", "threshold", "srcarea", "dgp")], 1e-9, 1e-7, "task radius")
                ctx.run([tr, lev, thr], go)

    def defaults():
        v = np.array([glare.direction(view[0], *PAL[i]) for i in (0, 1, 2, 3, 4)])
        o, l = np.array(OMEGA[0]), np.array([10., .5, 30, .2, 5])
        m, src, n = glare.metrics(*view, v, o, l)
        s = MetricSet(v, o, l, ViewMapper(*view))
        close(s(), [m[i] for i in ("illum", "avglum", "loggcr", "ugp", "dgp")], 1e-9, 1e-7, "default metrics")
        b = BaseMetricSet(v, o, l, ViewMapper(*view))
        close(b(), [m[i] for i in ("illum", "avglum", "loggcr")], 1e-9, 1e-7, "default metrics of the base class")
        check(set(MetricSet.allmetrics) == set(glare.ALL), f"names {MetricSet.allmetrics}")
        check(set(BaseMetricSet.allmetrics) == set(glare.BASE), f"names {BaseMetricSet.allmetrics}")
        for names in itertools.permutations(["illum", "bad", "dgp"], 2):
            good = [i for i in names if i != "bad"]
            same(MetricSet.check_metrics(names), good, "valid names")
            if len(good) < 2:
                raises(AttributeError, MetricSet.check_metrics, names, True)
                raises(AttributeError, MetricSet, v, o, l, ViewMapper(*view), list(names))
                raises(AttributeError, s, list(names))
    ctx.run(["defaults"], defaults)


def groups(tier):
    q = tier == "quick"
    g = [("extra", g_extra)]
    g += [(f"dim {p}", g_dim, p, 4) for p in range(4)]
    for p in range(6):
        g.append((f"sets4 {p}", g_sets, 4, (0, 1, 2, 3) if q else range(5), p, 6))
        g.append((f"sets3 {p}", g_sets, 3, range(5), p, 6))
    for k in (1, 2):
        g.append((f"sets{k}", g_sets, k, range(5), 0, 1))
    sets = [(0, 1, 3), (1, 5, 10), (2, 4, 8), (6, 7, 9)] if q else list(itertools.combinations(range(11), 3))
    for p in range(8):
        g.append((f"options {p}", g_opts, sets, (1, 2, 4) if q else range(5), p, 8))
    if not q:
        for p in range(16):
            g.append((f"sets5 {p}", g_sets, 5, (0, 1, 2, 4), p, 16))
    return g
