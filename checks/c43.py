"""Every combination of a lattice of source sizes x luminances (below, at and beyond both limits and beside them) x lower limits x widths against independent scalar formulas; on the lattice itself: at least one, never decreasing with luminance, smaller for
larger sources, one at or below the lower limit, constant at and beyond the upper one; scalars, arrays, mixed shapes (one source and many luminances, the outer product, columns) and integers agree element by element with single calls. The point spread
function and its inverse: one at the centre, one half at half the width, symmetric, decreasing, between 0 and 1, exact inverses of each other on lattices of both arguments and all widths, scaling with the width."""
import itertools
import math

import numpy as np

from mc.core import check, close, same
from raytools.evaluate import retina

RULE = "one evaluation per (size, luminance, limit, width); all non-trivial"
F0 = 0.183333


def psf(x, w):
    h = w / 2
    return h * h / (x * x + h * h)


def inv(y, w):
    return w / 2 * math.sqrt((1 - y) / y)


def cap(lmin):
    return lmin / psf(1, F0)


def factor(o, l, lmin, w):
    l = max(min(l, cap(lmin)), lmin)
    r0 = math.degrees(math.sqrt(o / math.pi))
    return ((r0 + inv(lmin / l, w)) / r0) ** 2


def omegas(tier):
    n = 25 if tier == "quick" else 121
    return [6.7967e-05, 5.9e-5, 1e-9, 1.] + [10 ** (-8 + 8.5 * i / (n - 1)) for i in range(n)]


def lums(lmin, tier):
    c = cap(lmin)
    n = 25 if tier == "quick" else 121
    b = [lmin * (c * 10 / lmin) ** (i / (n - 1)) * .05 for i in range(n)]
    b += [0., lmin * .5, lmin * (1 - 1e-9), lmin, lmin * (1 + 1e-9), lmin * 1.5, c * (1 - 1e-9), c, c * (1 + 1e-9), c * 2, 1e12]
    return sorted(b)


LMIN = (279.33, 1., 11.17, 5e4)
WIDTH = (F0, .05, .5, 2.)


def g_blur(ctx, lmin, w, tier):
    O, L = np.array(omegas(tier)), np.array(lums(lmin, tier))
    c, own = cap(lmin), lmin / psf(1, w)
    lo, hi = min(c, own), max(c, own)
    if w == F0:
        kw = dict(lmin=lmin)
        hi = lo = c
    else:
        # the upper limit is stated for the default width: judged only where the limit of either width leads to the same
        kw = dict(lmin=lmin, fwhm=w)
    if lmin == LMIN[0] and w == F0:
        ctx.run("defaults", lambda: close([retina.blur_sun(o, 2000.) for o in O], [factor(o, 2000., lmin, w) for o in O], 0, 1e-9, "default limits"))
    grid = np.zeros((len(O), len(L)))
    for i, o in enumerate(O):
        for j, l in enumerate(L):
            def one():
                v = retina.blur_sun(float(o), float(l), **kw)
                same(np.shape(v), (), "one value for scalars")
                if l <= lo or w == F0:
                    close(v, factor(o, l, lmin, w), 1e-12, 1e-7, "correction factor")
                return float(v)
            v = ctx.run((lmin, w, float(o), float(l)), one)
            if v is None:
                return
            grid[i, j] = v
    ctx.run((lmin, w, "at least one"), lambda: check(grid >= 1, "factor below one"))
    ctx.run((lmin, w, "luminance"), lambda: check(np.diff(grid, axis=1) >= 0, "factor decreases with luminance"))
    o = np.argsort(O, kind="stable")
    ctx.run((lmin, w, "size"), lambda: check(np.diff(grid[o][:, L > lmin * 1.01], axis=0) <= 0, "factor grows with the size of the source"))
    ctx.run((lmin, w, "strict"), lambda: check(np.diff(grid[o][:, (L > lmin * 1.01)][np.append(True, np.diff(O[o]) > 0)], axis=0) < 0, "factor is not smaller for larger sources"))
    rise = (L >= lmin) & (L <= lo)
    ctx.run((lmin, w, "rises"), lambda: check(np.diff(grid[:, rise], axis=1)[:, np.diff(L[rise]) > 1e-6 * lmin] > 0, "factor does not grow between the limits"))
    ctx.run((lmin, w, "lower limit"), lambda: same(grid[:, L <= lmin], np.ones((len(O), np.sum(L <= lmin))), "factor at or below the lower limit"))
    ctx.run((lmin, w, "upper limit"), lambda: close(grid[:, L >= hi], np.repeat(grid[:, -1:], np.sum(L >= hi), 1), 0, 1e-12, "factor beyond the upper limit"))
    # element by element
    forms = dict(outer=(O[:, None], L[None], grid), outer_t=(O[None], L[:, None], grid.T), deep=(O[:, None, None], L[None, None], grid[:, None]))
    for n, (a, b, g) in forms.items():
        ka, kb = a.copy(), b.copy()
        ctx.run((lmin, w, n), lambda: close(retina.blur_sun(a, b, **kw), g, 0, 1e-12, "arrays"))
        ctx.run((lmin, w, n, "kept"), lambda: (same(a, ka, "sizes changed"), same(b, kb, "luminances changed")))
    for i, o in enumerate(O):
        ctx.run((lmin, w, "row", i), lambda: close(retina.blur_sun(float(o), L, **kw), grid[i], 0, 1e-12, "one source, many luminances"))
    for j, l in enumerate(L):
        ctx.run((lmin, w, "column", j), lambda: close(retina.blur_sun(O, float(l), **kw), grid[:, j], 0, 1e-12, "many sources, one luminance"))
    for k in range(1, len(O)):
        i = np.arange(len(L)) * k % len(O)
        ctx.run((lmin, w, "paired", k), lambda: close(retina.blur_sun(O[i], L, **kw), grid[i, np.arange(len(L))], 0, 1e-12, "paired"))
    for l in (0, 1, 300, 2000, 40000, 10 ** 7):
        ctx.run((lmin, w, "int", l), lambda: close(retina.blur_sun(O, l, **kw), retina.blur_sun(O, float(l), **kw), 0, 1e-12, "integer luminance"))
        ctx.run((lmin, w, "ints", l), lambda: close(retina.blur_sun(O, np.full(len(O), l), **kw), retina.blur_sun(O, float(l), **kw), 0, 1e-12, "integer luminances"))
    lm = np.array([lmin, lmin * 2, lmin * 5])
    if w == F0:
        ctx.run((lmin, "limits"), lambda: close(retina.blur_sun(O[:3], lmin * 3, lm), [factor(a, lmin * 3, b, w) for a, b in zip(O[:3], lm)], 0, 1e-7, "one limit each"))


def g_psf(ctx, tier):
    n = 200 if tier == "quick" else 4000
    for w in (F0, .01, .05, .1, .5, 1., 2., 10.):
        kw = {} if w == F0 else dict(fwhm=w)
        x = np.array(sorted({0., 1e-6, w / 2, w, 90.} | {w * 1e-3 * (1e6) ** (i / n) for i in range(n)}))
        y = retina.hpsf(x, **kw)
        ctx.bulk(len(x))
        ctx.run((w, "centre"), lambda: close(retina.hpsf(0., **kw), 1, 1e-15, 0, "centre"))
        ctx.run((w, "half"), lambda: close(retina.hpsf(np.array([w / 2, -w / 2]), **kw), [.5, .5], 1e-12, 0, "half the width"))
        ctx.run((w, "formula"), lambda: close(y, [psf(i, w) for i in x], 0, 1e-10, "point spread"))
        ctx.run((w, "even"), lambda: same(retina.hpsf(-x, **kw), y, "not symmetric"))
        ctx.run((w, "falls"), lambda: check(np.diff(y)[x[1:] > 1e-4 * w] < 0, "not decreasing"))
        ctx.run((w, "range"), lambda: check((y > 0) & (y <= 1), "not in 0..1"))
        ctx.run((w, "inverse of it"), lambda: close(retina.inv_hpsf(y, **kw), x, w * 1e-6, 1e-7, "inverse"))
        u = np.array([1., .5, 1 - 1e-6] + [10 ** (-9 * i / n) for i in range(n + 1)])
        v = retina.inv_hpsf(u, **kw)
        ctx.run((w, "it of the inverse"), lambda: close(retina.hpsf(v, **kw), u, 0, 1e-10, "inverse"))
        ctx.run((w, "inverse formula"), lambda: close(v, [inv(i, w) for i in u], w * 1e-7, 1e-7, "inverse"))
        ctx.run((w, "inverse ends"), lambda: close(retina.inv_hpsf(np.array([1., .5]), **kw), [0, w / 2], 1e-9, 1e-9, "inverse"))
        ctx.run((w, "scale"), lambda: close(retina.hpsf(x * 3, w * 3), y, 0, 1e-12, "scales with the width"))
        for i in range(0, len(x), 1 if tier != "quick" else 5):
            ctx.run((w, "single", i), lambda: (close(retina.hpsf(float(x[i]), **kw), y[i], 0, 1e-13, "single value"), close(retina.inv_hpsf(float(y[i]), **kw), retina.inv_hpsf(y, **kw)[i], 1e-15, 1e-12, "single value")))
        g = x[:60].reshape(4, 15)
        ctx.run((w, "shape"), lambda: (same(retina.hpsf(g, **kw), y[:60].reshape(4, 15), "shape"), same(retina.hpsf(x, np.full(len(x), w)), y, "width each")))


def groups(tier):
    return [(f"blur {l} {w}", g_blur, l, w, tier) for l, w in itertools.product(LMIN, WIDTH)] + [("psf", g_psf, tier)]
