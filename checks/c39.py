"""Every assignment of colours (grays, saturated, equal luminance with different colour, black, very bright) to up to four directions (on axis, above, below, outside the view, bright at the edge) for one to five channels
with normalized, unnormalized, zero and negative-free weights, thresholds, scales and views: every luminance metric of the colour set must equal the scalar model on weighted values (away from the edge) and that of a
luminance set of the same weighted rays (always); irradiance must be the model's cosine-weighted sum of each channel; rows, flat arrays and lists as input agree. Metric lists of every
order up to length 3 with repetitions: one entry per scalar, one per channel for irradiance, in order."""
import itertools
import math
import warnings

import numpy as np

from mc import glare
from mc.core import check, close, raises, same
from raytools.evaluate import ColorMetricSet, MetricSet
from raytools.mapper import ViewMapper

RULE = "one case per (directions, colours, weights, options); all non-trivial"

PAL = [(0, 0), (20, 33), (200, 48), (95, 71), (10, 97), (140, 170)]
EDGE = [(0, 89.5), (45, 90.3), (180, 90.2)]
OM = (.3, .02, 1.1, .6, .4, .2)
WEIGHTS = {1: [(1.,), (.5,)], 2: [(.3, .7), (0., 1.)], 3: [(.265, .67, .065), (.2, .7, .1), (1., 0., 0.), (2., 3., 1.)], 4: [(.1, .2, .3, .4), (0., .5, 0., .5)], 5: [(.05, .25, .4, .2, .1)]}
VIEWS = [((0, 1, 0), 180), ((1, -2, .6), 180), ((.3, 1, -.2), 120), ((0, 1, 0), 360)]
OPTS = [dict(), dict(threshold=5.), dict(scale=1., threshold=101.), dict(lowlight=True, scale=2.), dict(guth=False, threshold=500.), dict(threshold=6.3, tradius=40.), dict(threshold=2.57, tradius=60., scale=11.)]


def colours(n):
    """colours for n channels"""
    k = np.arange(n)
    return [np.zeros(n), np.full(n, 2.), 1 + k % 3 * 1.5, 3. - k % 4 * .9, np.where(k == n - 1, 700., 1.), np.where(k == 0, 60., 0.)]


def verify(ctx, view, dirs, cs, w, opts, exact):
    d, va = view
    n = len(w)
    v = [glare.direction(d, *p) for p in dirs]
    l = [colours(n)[i] for i in cs]
    o = OM[:len(v)]
    vm = ViewMapper(d, va)
    V, O, L = np.array(v), np.array(o), np.array(l)
    if not opts.get("guth", True):
        if (0, 0) in dirs:
            return
    with np.errstate(all="ignore"):
        s = ColorMetricSet(V, O, L, vm, vlambda=w, **opts)
        g = MetricSet(V, O, L @ np.array(w), ViewMapper(d, va), **opts)
        names = [k for k in glare.ALL]
        a, b = s(names), g(names)
        faint = abs(b[names.index("backlum")]) * math.pi < 1e-9 * b[0]
        for k, x, y in zip(names, a, b):
            if not (faint and k in ("ugr", "ugp", "backlum")):
                close(x, y, 1e-9, 1e-9, f"{k} of colour and luminance rays")
        if sum(cs) % 3 == 0:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                check(np.array_equal(ColorMetricSet(V, O, L, vm, vlambda=w, warnings=True, **opts)(names + ["irradiance"]), s(names + ["irradiance"]), equal_nan=True), "values with warnings")
            some = ["illum", "avglum", "gcr", "density", "dgp", "srcarea"]
            for oa in (True, False):
                close(ColorMetricSet(V, O, L, vm, vlambda=w, omega_as_view_area=oa, **opts)(some), MetricSet(V, O, L @ np.array(w), vm, omega_as_view_area=oa, **opts)(some), 1e-9, 1e-9, f"{some} of colour and luminance rays, areas as given: {oa}")
        irr = np.asarray(s.irradiance)
        same(irr.shape, (n,), "irradiance per channel")
        close(irr @ np.array(w), b[0], 1e-9, 1e-9, "illuminance and weighted irradiance")
        if exact:
            one = np.asarray(ColorMetricSet(V, O, np.ones_like(L), vm, vlambda=w, **opts).irradiance)
            for k in (.7, 5., 1000.):
                t = ColorMetricSet(V, O, L - k, vm, vlambda=w, **opts)
                close(t.irradiance, irr - k * one, 1e-6, 1e-9, "irradiance of negative channel values")
        for x in (L.ravel(), L.tolist(), np.asfortranarray(L)):
            t = ColorMetricSet(V, O, x, vm, vlambda=list(w), **opts)
            close(t(["irradiance", "dgp", "illum"]), s(["irradiance", "dgp", "illum"]), 1e-12, 1e-12, "form of the input")
        if exact:
            m, src, k = glare.metrics(d, va, v, o, l, weights=w, **opts)
            if k == 0:
                return
            if any(abs(sum(x * y for x, y in zip(c, w)) * opts.get("scale", 179.) - m["threshold"]) < 1e-7 * m["threshold"] for c in l):
                return
            close(irr, m["irradiance"], 1e-9, 1e-8, "irradiance")
            if va != 360:
                for k, x in zip(names, a):
                    if not (faint and k in ("ugr", "ugp", "backlum")):
                        close(x, m[k], 1e-9, 1e-7, k)
                same(s.src_mask, src, "sources")
                rows = [i for i in range(len(v)) if any(np.array_equal(V[i] / np.linalg.norm(V[i]), q) or np.allclose(V[i], q, atol=1e-12) for q in s.vec)]
                close(s.rgb, L[rows], 0, 0, "colours in view")
                close(s.lum, L[rows] @ np.array(w), 1e-12, 1e-12, "luminances in view")
                for part, want in ((s.sources, True), (s.background, False)):
                    j = [r for r, z in zip(rows, src) if z == want]
                    close(part[3], L[j].reshape(-1, n), 0, 0, "colours of sources and background")
                    close(part[2], (L[j] @ np.array(w)).ravel(), 1e-12, 1e-12, "luminances of sources and background")
                    close(part[1], O[j], 0, 0, "solid angles of sources and background")
    same(L, np.array(l), "given colours changed")


def g_sets(ctx, nch, k, part, parts):
    c = 0
    for idx in itertools.combinations(range(len(PAL)), k):
        for cs in itertools.product(range(6), repeat=k):
            c += 1
            if c % parts != part:
                continue
            w = WEIGHTS[nch][c // parts % len(WEIGHTS[nch])]
            view, opts = VIEWS[c // parts % 4], OPTS[c // parts // 4 % 7]
            # rays outside the view come at any place
            j = c // parts % k
            idx = idx[j:] + idx[:j]
            ctx.run([view, idx, cs, w, opts], verify, ctx, view, [PAL[i] for i in idx], cs, w, opts, True)


def g_edge(ctx, nch, part, parts):
    """bright rays overlapping the edge"""
    c = 0
    for e in ([EDGE[0]], [EDGE[1]], [EDGE[2]], EDGE[1:], EDGE):
        for cs in itertools.product((1, 3, 4), repeat=len(e) + 2):
            for view in VIEWS[:2]:
                c += 1
                if c % parts == part:
                    w = WEIGHTS[nch][c % len(WEIGHTS[nch])]
                    ctx.run([view, e, cs, w], verify, ctx, view, [PAL[0], PAL[2]] + list(e), cs, w, OPTS[(0, 1, 2, 3, 5, 6)[c % 6]], False)


def g_opts(ctx, nch, part, parts):
    c = 0
    for view in VIEWS:
        for w in WEIGHTS[nch]:
            for opts in OPTS:
                for cs in itertools.product(range(6), repeat=3):
                    c += 1
                    if c % parts == part:
                        ctx.run([view, w, opts, cs], verify, ctx, view, [PAL[1], PAL[2], PAL[4]], cs, w, opts, True)


def g_lists(ctx, nch, n):
    w = WEIGHTS[nch][0]
    d, va = VIEWS[1]
    v = np.array([glare.direction(d, *p) for p in PAL[:4]])
    l = np.array(colours(nch))[[2, 1, 4, 3]]
    for k in range(n + 1):
        for lst in itertools.product(["irradiance", "illum", "dgp", "maxlum", "srcarea"], repeat=k):
            def go():
                with np.errstate(all="ignore"):
                    s = ColorMetricSet(v, np.array(OM[:4]), l, ViewMapper(d, va), list(lst), vlambda=w)
                    m, src, _ = glare.metrics(d, va, v, OM, l, weights=w)
                    got = s()
                    want = np.concatenate([np.atleast_1d(m[i]) for i in lst]) if lst else np.array([])
                    close(got, want, 1e-9, 1e-7, "list given at construction")
                    t = ColorMetricSet(v, np.array(OM[:4]), l, ViewMapper(d, va), vlambda=w, warn=True)
                    close(t(list(lst)), want, 1e-9, 1e-7, "called list")
                    close(t(), np.append(m["illum"], m["irradiance"]), 1e-9, 1e-7, "default list")
            ctx.run([nch, lst], go)
    for bad in (["irr"], ["irradiance", "rgb"], ["lum", "dgp"]):
        ctx.run([nch, "bad", bad], raises, AttributeError, ColorMetricSet, v, np.array(OM[:4]), l, ViewMapper(d, va), bad, vlambda=w)


def groups(tier):
    q = tier == "quick"
    g = []
    for n in WEIGHTS:
        for p in range(2):
            g.append((f"sets {n} {p}", g_sets, n, 3, p, 8 if q else 2))
            g.append((f"edge {n} {p}", g_edge, n, p, 4 if q else 2))
            g.append((f"options {n} {p}", g_opts, n, p, 4 if q else 2))
        if not q:
            for p in range(4):
                g.append((f"sets4 {n} {p}", g_sets, n, 4, p, 4))
        g.append((f"lists {n}", g_lists, n, 3 if q else 4))
    return g
