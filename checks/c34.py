"""Small images (gray and colour, square and two-part, without view, with several views, with and without weights in the header) are evaluated with every single metric, every ordered pair of
representative metrics and colour lists, for every combination of weight source (default, header, caller), scale, threshold, low-light and peak options. The
result must equal that of rays put together by the reference geometry from the file's pixels with the weights applied by hand, passed through the ray functions (C33, C36, C39). Equal
weights from caller and header agree; unknown names are rejected in every position; a call leaves no trace in the next."""
import itertools

import numpy as np

from mc import ref
from mc.core import check, close, raises, same, scratch
from raytools import imagetools, io
from raytools.evaluate import ColorMetricSet, MetricSet
from raytools.mapper import ViewMapper

RULE = "one case per (image, metric list, options); all non-trivial"

W0 = (.265, .67, .065)
VIEWS = {"none": None, "front": ((0, 1, 0), 180), "side": ((1, -2, .4), 180), "narrow": ((.2, 1, -.1), 110), "two": ((0, 1, 0), 360)}
GRAY = ["illum", "avglum", "loggcr", "gcr", "pwgcr", "logpwgcr", "density", "avgraylum", "pwavglum", "maxlum", "ugp", "dgp", "tasklum", "backlum", "dgp_t1",
        "log_gc", "dgp_t2", "ugr", "threshold", "pwsl2", "view_area", "backlum_true", "srcillum", "srcarea"]


def scene(res, x, color, seed):
    n = x * res
    k = np.arange(n)
    a = (((k * 7919 + seed * 131) % 97) + 8) / 32.
    a = a.reshape(x, res)
    a[x // 2, res // 2 + 1] = 900.
    a[x // 2 - 1, res // 2 + 1] = 600.
    a[1 + x // 4, res // 2] = 40.
    if not color:
        return a
    return np.stack((a * 1.5, a, a * np.where(k.reshape(x, res) % 3, .25, 2.)))


def rays(f, view, res, x, weights, color):
    d, va = VIEWS[view] or ((0, 1, 0), 180)
    rv = ref.View(d, va)
    vm = ViewMapper(d, va)
    v = rv.ray(rv.pixels(res) / res)
    o = np.tile(vm.pixel2omega(vm.pixels(res), res).ravel(), rv.aspect)
    c = io.hdr2carray(f).reshape(3, -1).T.astype(float)
    return vm, v, o, (c if color else c @ np.array(weights))


def expect(f, view, res, x, metrics, weights, peakn=False, scale=179., threshold=2000., lowlight=False, **peak):
    color = "irradiance" in metrics
    vm, v, o, l = rays(f, view, res, x, weights, color)
    if peakn:
        v, o, l = imagetools.normalize_peak(v, o, l, scale, vlambda=weights, **peak)
    kw = dict(metricset=metrics, scale=scale, threshold=threshold, lowlight=lowlight)
    if color:
        return ColorMetricSet(v, o, l, vm, vlambda=weights, **kw)()
    return MetricSet(v, o, l, vm, **kw)()


def verify(f, view, res, x, metrics, lumrgb, head, opts):
    weights = lumrgb or (head if head and len(head) == 3 else W0)
    with np.errstate(all="ignore"):
        want = expect(f, view, res, x, list(metrics), weights, **opts)
        ml = list(metrics)
        got = imagetools.imgmetric(f, ml, lumrgb=lumrgb, **opts)
        check(ml == list(metrics), "the list of metrics was changed")
    same(np.shape(got), np.shape(want), "entries")
    close(got, want, 1e-9, 4e-3 if np.allclose(weights, W0, atol=.001) and "irradiance" not in metrics else 1e-5, f"{metrics}")


OPTS = [dict(), dict(scale=1.), dict(threshold=5.), dict(threshold=9000.), dict(lowlight=True, scale=.5), dict(peakn=True), dict(peakn=True, peaka=1e-3, scale=200.), dict(peakn=True, peakt=2e5, peakr=8., blursun=True),
        dict(peakn=True, peakt=1e4, peakc=1.5, threshold=4.), dict(threshold=100., scale=17.9), dict(threshold=100.5), dict(peakn=True, peaka=.01, peakrad=6., lowlight=True, scale=100., peakt=3e4)]


def make(color, view, head, res, seed=0):
    x = 2 * res if view == "two" else res
    h = ["EXPOSURE=1"]
    if head:
        h.append("LuminanceRGB= " + " ".join(map(str, head)))
    if VIEWS[view]:
        h.append(ViewMapper(*VIEWS[view]).header())
    (io.carray2hdr if color else io.array2hdr)(scene(res, x, color, seed), "a b.hdr", h)
    return "a b.hdr", x


def g_grid(ctx, view, color, ress, lists):
    with scratch():
        n = 0
        for res in ress:
            for head in (None, (.2, .7, .1), (.265074, .670115, .064811), (.25, .67, .08), (.27, .665, .065), (0., 0., 1.), (.3, .6), (.2, .3, .4, .1)):
                f, x = make(color, view, head, res)
                for lumrgb in (None, [.3, .4, .3], [1., 0., 0.]):
                    for oi, opts in enumerate(OPTS):
                        for m in lists:
                            n += 1
                            ctx.run([view, color, res, head, lumrgb, opts, m], verify, f, view, res, x, m, lumrgb, head, opts)


def g_names(ctx, view, res):
    with scratch():
        f, x = make(True, view, None, res)
        for m in GRAY:
            for opts in OPTS[:9]:
                ctx.run([view, m, opts], verify, f, view, res, x, [m], None, None, opts)
            ctx.run([view, "c", m], verify, f, view, res, x, ["irradiance", m], None, None, {})
            for bad in ("illumm", "", "vec", "gss", m.upper()):
                for lst in ([bad], [m, bad], [bad, m], ["irradiance", bad], [m, bad, "irradiance"]):
                    ctx.run([view, "bad", lst], raises, AttributeError, imagetools.imgmetric, f, lst)
        for a, b in itertools.product(GRAY, repeat=2):
            ctx.run([view, a, b], verify, f, view, res, x, [a, b], None, None, {})
        for p in itertools.permutations(["dgp", "irradiance", "illum", "ugp"]):
            ctx.run([view, p], verify, f, view, res, x, list(p), None, None, {})
        ctx.run([view, "repeat"], verify, f, view, res, x, ["dgp", "dgp", "illum", "dgp"], None, None, {})
        ctx.run([view, "none"], verify, f, view, res, x, [], None, None, {})


def g_weights(ctx, res):
    """equal weights however supplied, and a history of images with different headers"""
    with scratch():
        heads = [None, (.2, .7, .1), (.265, .67, .065), (.5, .25, .25)]
        for m in (["illum", "dgp"], ["irradiance", "avglum"]):
            for w in heads[1:]:
                for opts in OPTS:
                    def go():
                        f, x = make(True, "front", w, res)
                        a = imagetools.imgmetric(f, list(m), **opts)
                        f, x = make(True, "front", None, res)
                        b = imagetools.imgmetric(f, list(m), lumrgb=list(w), **opts)
                        f, x = make(True, "front", (.9, .05, .05), res)
                        c = imagetools.imgmetric(f, list(m), lumrgb=list(w), **opts)
                        close(a, c, 1e-9, 4e-3, "header and caller")
                        close(b, c, 1e-9, 1e-9, "caller over header")
                    ctx.run([m, w, opts], go)
            for seq in itertools.product(range(4), repeat=3):
                def hist():
                    for i in seq:
                        f, x = make(True, "side" if i % 2 else "none", heads[i], res, i)
                        verify(f, "side" if i % 2 else "none", res, x, m, None, heads[i], {})
                        ctx.trans()
                ctx.run([m, "history", seq], hist)
                ctx.trace()


def groups(tier):
    q = tier == "quick"
    lists = [["illum", "dgp", "ugp", "maxlum"], ["avglum", "irradiance", "srcarea", "dgp"]]
    g = []
    for view in VIEWS:
        for color in (False, True):
            ress = ((7,) if color else (12,)) if q else (3, 5, 7, 12, 20)
            g.append((f"grid {view} {color}", g_grid, view, color, ress, lists))
    for view in ("none", "side") if q else VIEWS:
        g.append((f"names {view}", g_names, view, 8 if q else 13))
    g.append(("weights", g_weights, 6 if q else 11))
    return g
