"""Every ordering of every set of up to n sample positions from a lattice (including coincident positions), with one and two features, all
averaging methods (mean, median, one quantile, several quantiles), sigmas (wide, narrow, so narrow that the kernel vanishes between
samples, Scott's rule, extra scale), bandwidths (none, larger than the data, one and two samples) and targets (the samples themselves,
between, on and far outside), compared with a plain-Python reference of the weighted average in input order."""
import itertools
import math

import numpy as np

from checks.c18 import refq
from mc.core import check, close, same
from raytools import translate as tr

RULE = "one case per (sample positions in order, method); each evaluates all sigmas, bandwidths, targets and feature counts"
POS = (0., 1., 2., 2., 5.)
DATA = (3., -1., 4., 1.5, 9.)
DATA2 = (0., 10., 2., -7., 5.)
TARGETS = np.array([-50., 0., .5, 3.25, 3.75, 60.])
SIG = (2., .4, .01)


def reference(x, ys, x0s, s, bw, method):
    """x, ys in any order"""
    o = sorted(range(len(x)), key=lambda i: x[i])
    xs = [x[i] for i in o]
    out = []
    for k0, (x0, at) in enumerate(x0s):
        n = len(xs)
        if bw is None:
            lo, hi = 0, n
        else:
            k = at if at is not None else sum(1 for i in xs if i < x0)
            lo, hi = max(0, k - bw), min(n, k + bw)
        w = [math.exp(-((xs[i] - x0) / s) ** 2 / 2) / (s * math.sqrt(2 * math.pi)) for i in range(lo, hi)]
        cols = []
        for y in ys:
            yy = [y[o[i]] for i in range(lo, hi)]
            if sum(w) > 0:
                if method == "mean":
                    c = [sum(a * b for a, b in zip(yy, w)) / sum(w)]
                elif method == "median":
                    c = [refq(yy, w, .5, 0)]
                else:
                    c = [refq(yy, w, q, 0) for q in method]
            else:
                xx = xs[lo:hi]
                k = sum(1 for i in xx if i < x0)
                if k == 0:
                    v = yy[0]
                elif k == len(xx):
                    v = yy[-1]
                else:
                    f = (x0 - xx[k - 1]) / (xx[k] - xx[k - 1])
                    v = yy[k] * f + yy[k - 1] * (1 - f)
                c = [v] * (len(method) if isinstance(method, tuple) else 1)
            cols += c
        out.append(cols)
    return np.array(out).T


def call(x, ys, xr, s, bw, method, **kw):
    y = np.array(ys[0]) if len(ys) == 1 else np.array(ys)
    m = method if isinstance(method, str) else np.array(method)
    out = tr.non_uniform_gaussian_filter(np.array(x), y, xr, sigma=s, bw=bw, amethod=m, **kw)
    return np.reshape(out, (-1, len(x) if xr is None else len(xr)))


def one(ctx, ix, method):
    x = [POS[i] for i in ix]
    d1 = [DATA[i] for i in ix]
    d2 = [DATA2[i] for i in ix]
    o = sorted(range(len(x)), key=lambda i: x[i])
    feats = [[d1]] if isinstance(method, tuple) and len(method) > 1 else [[d1], [d1, d2]]
    ties = len(set(x)) < len(x)
    for ys in feats:
        for s in SIG:
            full = None
            for bw in (None, len(x) + 1, 2, 1):
                if bw in (1, 2) and ties:
                    # which of two coincident samples is cut off is arbitrary
                    continue
                r = call(x, ys, TARGETS, s, bw, method)
                close(r, reference(x, ys, [(t, None) for t in TARGETS], s, bw, method), atol=1e-7,
                      msg=f"resampled sigma={s} bw={bw}")
                me = call(x, ys, None, s, bw, method)
                at = {i: k for k, i in enumerate(o)}
                e = reference(x, ys, [(x[i], at[i]) for i in range(len(x))], s, bw, method)
                close(me, e, atol=1e-7, msg=f"own positions sigma={s} bw={bw}")
                lo, hi = np.min(ys), np.max(ys)
                check((r >= lo - 1e-9) & (r <= hi + 1e-9), "outside the data range")
                ctx.outcome(np.round(me, 5).tolist())
            close(call(x, ys, TARGETS, s / 2, None, method, sscale=2.), call(x, ys, TARGETS, s, None, method),
                  atol=1e-9, msg="sscale")
            if s == SIG[0]:
                for whole, sc in ((1, .5), (2, .75), (3, .5), (1, 2)):
                    close(call(x, ys, TARGETS, whole, None, method, sscale=sc), call(x, ys, TARGETS, float(whole) * sc, None, method),
                          atol=1e-9, msg="whole sigma")
            if len(ys) == 2:
                close(call(x, ys, TARGETS, s, None, method)[:1], call(x, ys[:1], TARGETS, s, None, method),
                      atol=1e-9, msg="features are independent")
        if len(set(x)) > 1:
            sd = np.std(x, ddof=1) * len(x) ** -.2
            close(call(x, ys, TARGETS, None, None, method), call(x, ys, TARGETS, sd, None, method), atol=1e-8,
                  msg="Scott's rule")
        const = [[4.5] * len(x)] * len(ys)
        r = call(x, const, TARGETS, .4, None, method)
        close(r, np.full(r.shape, 4.5), atol=1e-9, msg="constant not kept")


METHODS = ["mean", "median", (.5,), (.25,), (0., .5, 1.)]


def g_orders(ctx, n, m, first):
    method = METHODS[m]
    for ln in range(1, n + 1):
        for ix in itertools.permutations(range(len(POS)), ln):
            if ix[0] != first:
                continue
            ctx.run([ix, method], one, ctx, ix, method)


def g_errors(ctx):
    from mc.core import raises
    x, y = np.array([0., 1]), np.array([[1., 2], [3, 4]])
    for m in ("mode", [-.1], [1.2], ["a"]):
        ctx.run([m], lambda: raises(ValueError, tr.non_uniform_gaussian_filter, x, y[0], amethod=m))
    ctx.run(["2 quantiles of 2 features"], lambda: raises(
        ValueError, tr.non_uniform_gaussian_filter, x, y, amethod=[.2, .8]))


def g_long(ctx):
    """more samples than the default bandwidth: order still does not matter"""
    n = 1200
    x = np.arange(n) * .5
    y = np.cos(x)
    for stride in (7, 11, n - 1):
        ix = (np.arange(n) * stride) % n

        def go():
            a = tr.non_uniform_gaussian_filter(x, y, sigma=1.)
            b = tr.non_uniform_gaussian_filter(x[ix], y[ix], sigma=1.)
            close(b, a[..., ix], atol=1e-9, msg="order")
            close(a, tr.non_uniform_gaussian_filter(x, y, x, sigma=1.), atol=1e-9, msg="own positions as targets")
        if len(set(ix)) == n:
            ctx.run(["long", stride], go)
    # the default width at every number of samples
    for n in [*range(2, 70), 100, 255, 256, 257, 1001]:
        x = np.cumsum(.5 + (np.arange(n) * 7 % 5) / 4)
        y = np.cos(x)

        def scott():
            sd = np.std(x, ddof=1) * n ** -.2
            for m in ("mean", "median") if n < 70 else ("mean",):
                a = tr.non_uniform_gaussian_filter(x, y, TARGETS, amethod=m)
                close(a, tr.non_uniform_gaussian_filter(x, y, TARGETS, sigma=sd, amethod=m), atol=1e-9, msg="default width")
                if m == "mean":
                    w = np.exp(-((x - TARGETS[:, None]) / sd) ** 2 / 2)
                    ok = w.sum(1) > 1e-280
                    close(np.ravel(a)[ok], (w @ y)[ok] / w.sum(1)[ok], atol=1e-9, msg="default width, weighted mean")
                    close(np.ravel(tr.non_uniform_gaussian_filter(x, y, TARGETS, sscale=.5)), np.ravel(tr.non_uniform_gaussian_filter(x, y, TARGETS, sigma=sd / 2)),
                          atol=1e-9, msg="scaled default width")
            ctx.outcome(n)
        ctx.run(["default width", n], scott)


def groups(tier):
    n = 4 if tier == "quick" else 5
    return [(f"orders-{METHODS[m]}-{f}", g_orders, n, m, f) for m in range(len(METHODS)) for f in range(len(POS))] + [("errors", g_errors), ("long", g_long)]
