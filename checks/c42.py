"""Every point of polar (every meridian of a lattice incl. the axes and the points beside them x eccentricities incl. the centre, each measured eccentricity of the data, the rim) and cartesian lattices over the visual field: single eye and binocular
densities against independent scalar code (fit and interpolated measurements along meridians, harmonic interpolation within the quadrant), positive, finite, mirrored left-right, equal on the axes to the meridian densities, a constant meridian
function gives that constant everywhere; single points, parts, other orders, memory layouts and integer coordinates agree with one call for all; inputs are left alone. Meridian functions: every meridian x eccentricity, one index for all or one each."""
import math

import numpy as np

from mc import curcio
from mc.core import check, close, fail, same
from raytools.evaluate import retina

RULE = "one evaluation per (point, density model, form of the call); all non-trivial"

FIT = ((0.9851255243509307, 1.057910790284875, 22.139309670912258), (0.9934935604656688, 1.0354962329628912, 16.346430181031927),
       (0.9729319961934142, 1.0841663616483523, 7.632575316432455), (0.9960391452747578, 0.993222146189384, 12.131840717293096))


def fit(deg, m):
    a, r2, re = FIT[m]
    return 33162.4 * a / (1 + deg / r2) ** 2 + (1 - a) * math.exp(-deg / re)


def measured(deg, m):
    t = curcio.DATA[m]
    if deg <= t[0][0]:
        y = t[0][1]
    elif deg >= t[-1][0]:
        y = t[-1][1]
    else:
        for (x0, y0), (x1, y1) in zip(t, t[1:]):
            if x0 <= deg <= x1:
                y = y0 + (y1 - y0) * (deg - x0) / (x1 - x0)
                break
    return max(y, 1.)


def eye(x, y, f, asis=False):
    """density of one eye at (x, y) degrees; None where a meridian is ambiguous; asis: the quadrant is chosen by x alone (known finding)"""
    r = math.hypot(x, y)
    mx = 0 if x > 0 else 2
    my = (1 if x > 0 else 3) if asis else (1 if y > 0 else 3)
    dx, dy = f(r, mx), f(r, my)
    if r == 0:
        return dy
    return r * r / (x * x / dx + y * y / dy)


MODELS = {"fit": (fit, retina.rgcf_density_on_meridian, retina.rgcf_density), "measured": (measured, retina.rgc_density_on_meridian, retina.rgc_density)}


def compare(got, xy, f, both, scale):
    """every point against the interpolation of its quadrant; points only explained by the known wrong quadrant are reported last"""
    known = None
    for g, (x, y) in zip(got, xy):
        x, y = float(x) * scale, float(y) * scale
        if x == 0 and y == 0:
            lo, hi = min(f(0., m) for m in range(4)), max(f(0., m) for m in range(4))
            if not lo - 1e-9 <= g <= hi + 1e-9:
                fail(f"density at the centre {g} outside {lo}..{hi}")
            continue
        if both:
            w = (eye(x, y, f) + eye(-x, y, f)) / 2
            k = (eye(x, y, f, True) + eye(-x, y, f, True)) / 2
        else:
            w, k = eye(x, y, f), eye(x, y, f, True)
        if not g > 0 or not math.isfinite(g):
            fail(f"density {g} at {x, y}")
        if abs(g - w) > 1e-9 * w:
            if abs(g - k) > 1e-9 * k:
                fail(f"density {g} at {x, y} degrees, expected {w}")
            known = known or f"vertical meridian chosen by the left-right side: density {g} at {x, y} degrees, expected {w}"
    if known:
        fail(known)


def points(tier):
    n = 72 if tier == "quick" else 360
    mer = sorted({i * 360 / n for i in range(n)} | {b + e for b in (0, 90, 180, 270) for e in (-1e-6, 1e-6)})
    rad = sorted({i / 30 for i in range(31)} | {1e-6, .001, .01} | {x / 90 for m in curcio.DATA for x, _ in m[::3 if tier == "quick" else 1]})
    pol = [(r * math.cos(math.radians(m)), r * math.sin(math.radians(m))) for m in mer for r in rad if r]
    ax = [(0., 0.)] + [p for r in rad if r for p in ((r, 0.), (-r, 0.), (0., r), (0., -r))]
    k = 20 if tier == "quick" else 60
    cart = [(i / k, j / k) for i in range(-k, k + 1) for j in range(-k, k + 1) if i * i + j * j <= k * k]
    return dict(polar=pol, axes=ax, cartesian=cart)


def g_density(ctx, model, region, tier):
    f, mer, dens = MODELS[model]
    xy = np.array(points(tier)[region])
    keep = xy.copy()
    with np.errstate(all="ignore"):
        both = dens(xy)
        one = retina.rgcf_density_xy(xy * 90, mer)
        for name, got, b, sc in (("binocular", both, True, 90), ("one eye", one, False, 90)):
            ctx.run((model, region, name), compare, got, xy, f, b, sc)
            ctx.bulk(len(xy))
        ctx.run((model, region, "kept"), lambda: same(xy, keep, "coordinates changed"))
        ctx.run((model, region, "mirrored"), lambda: close(dens(xy * np.array([[-1, 1]])), both, 0, 1e-12, "mirrored points"))
        ctx.run((model, region, "general"), lambda: close(retina.binocular_density(xy, mer), both, 0, 1e-12, "with the density function given"))
        if model == "fit":
            ctx.run((model, region, "default"), lambda: (close(retina.binocular_density(xy), both, 0, 1e-12, "default function"), close(retina.rgcf_density_xy(xy * 90), one, 0, 1e-12, "default function")))
        ctx.run((model, region, "average"), lambda: close((retina.rgcf_density_xy(xy * 90, mer) + retina.rgcf_density_xy(xy * np.array([[-90, 90]]), mer)) / 2, both, 0, 1e-12, "average of both eyes"))
        ctx.run((model, region, "reversed"), lambda: close(dens(xy[::-1])[::-1], both, 0, 1e-12, "other order"))
        ctx.run((model, region, "fortran"), lambda: close(dens(np.asfortranarray(xy)), both, 0, 1e-12, "memory order"))
        ctx.run((model, region, "strided"), lambda: close(dens(np.repeat(xy, 2, 0)[::2]), both, 0, 1e-12, "strided"))
        ctx.run((model, region, "twice"), lambda: close(dens(np.concatenate((xy, xy))), np.concatenate((both, both)), 0, 1e-12, "points twice"))
        for c in (1., 7.5, 300.):
            const = lambda d, m, c=c: np.broadcast_to(c, np.shape(d)) * np.ones(np.shape(m))
            ctx.run((model, region, "constant", c), lambda: close(retina.binocular_density(xy, const), np.full(len(xy), c), 0, 1e-9, "constant meridian densities"))
        for k in range(0, len(xy), 1 if tier != "quick" else 5):
            ctx.run((model, region, "single", k), lambda: (close(dens(xy[k:k + 1]), both[k:k + 1], 0, 1e-12, "single point"), close(retina.rgcf_density_xy(xy[k:k + 1] * 90, mer), one[k:k + 1], 0, 1e-12, "single point of one eye")))
        for w in (2, 3, 17):
            for k in range(0, len(xy), 5 * w):
                ctx.run((model, region, "part", w, k), lambda: close(dens(xy[k:k + w]), both[k:k + w], 0, 1e-12, "part of the points"))
        ii = np.array([(i, j) for i in range(-90, 91, 6) for j in range(-90, 91, 10) if i * i + j * j <= 8100])
        ctx.run((model, region, "integers"), lambda: close(retina.rgcf_density_xy(ii, mer), retina.rgcf_density_xy(ii.astype(float), mer), 0, 1e-12, "integer degrees"))


def g_meridian(ctx, model, tier):
    f, mer, dens = MODELS[model]
    deg = np.array(sorted({0., .05, 90., 120.} | set(np.linspace(0, 90, 181 if tier == "quick" else 1801)) | {x for m in curcio.DATA for x, _ in m}))
    for m in range(4):
        want = np.array([f(float(d), m) for d in deg])
        got = ctx.run((model, m, "one each"), lambda: mer(deg, np.full(len(deg), m)))
        ctx.bulk(len(deg))
        ctx.run((model, m, "formula"), lambda: close(got, want, 0, 1e-10, "density along the meridian"))
        ctx.run((model, m, "one for all"), lambda: close(mer(deg, m), want, 0, 1e-10, "one index for all"))
        ctx.run((model, m, "positive"), lambda: check(got > 0, "not positive"))
        if model == "fit":
            ctx.run((model, m, "decreasing"), lambda: check(np.diff(got) < 0, "density does not decrease outwards"))
        for k in range(len(deg)):
            ctx.run((model, m, "single", k), lambda: close(mer(deg[k:k + 1], np.array([m])), want[k:k + 1], 0, 1e-10, "single point"))
    for o in range(24):
        ms = (np.arange(len(deg)) * (o + 1) + o) % 4
        ctx.run((model, "mixed", o), lambda: close(mer(deg, ms), np.array([f(float(d), int(m)) for d, m in zip(deg, ms)]), 0, 1e-10, "mixed meridians"))


def groups(tier):
    return [(f"{m} {r}", g_density, m, r, tier) for m in MODELS for r in ("polar", "axes", "cartesian")] + [(f"meridian {m}", g_meridian, m, tier) for m in MODELS]
