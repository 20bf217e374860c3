"""Every subset (in every order up to a bound) of a palette of rays around the edge of a 180 degree view - inside, just inside, outside but overlapping (several at once, different sizes), just outside without overlap, beyond the search range, behind -
with every assignment of bright and dim, among dim filler rays: the rays, solid angles and luminances used must be those inside the view plus, for every bright ray whose disk overlaps the edge, the area of the overlap of two disks (computed by an
independent formula), moved onto the common chord on its own meridian; the rays keep their order, inputs are not changed and no ray affects another. With area correction, every set of rays (few / more than 100, excess / shortage, few edge rays so that
the band has to grow, none): exactly the edge rays are scaled by one factor to give the view area. Narrower and 360 degree views: exactly the rays in view, also those without solid angle."""
import itertools
import math

import numpy as np

from mc import glare, ref
from mc.core import check, close, same
from raytools.evaluate import BaseMetricSet, ColorMetricSet, MetricSet
from raytools.mapper import ViewMapper

RULE = "one case per (view, rays, brightness, options); all non-trivial"

VIEWS = [(0, 1, 0), (1, 2, -.5), (0, 0, 1), (-.7, -.1, -.9)]

# (meridian, angle, solid angle, bright)
PAL = [(0, 20, .01, 1), (30, 89.7, 3e-4, 1), (75, 90.2, 3e-4, 1), (75.5, 90.2, 2e-4, 1), (200, 90.5, 1e-3, 1), (260, 90.4, 6e-5, 1), (310, 90.9, 1.2e-3, 1), (140, 90.3, 5e-4, 0),
       (20, 91.2, 5e-3, 1), (100, 90.7, 1e-4, 1), (180, 170, .1, 1), (330, 90.05, 1e-5, 1)]


def filler(d, n=64):
    """dim rays: three quarters in view"""
    k = np.arange(n)
    ang = np.where(k % 4 == 3, 95 + k % 61, (k * 37) % 88 + .3)
    mer = (k * 137.5) % 360
    return [(glare.direction(d, float(m), float(a)), .02 + .001 * (i % 7), 1. + .1 * (i % 3)) for i, (m, a) in enumerate(zip(mer, ang))]


def lens(a, b, d):
    """area common to disks of radius a and b a distance d apart"""
    return (b * b * math.acos((d * d + b * b - a * a) / (2 * d * b)) + a * a * math.acos((d * d + a * a - b * b) / (2 * d * a))
            - .5 * math.sqrt((-d + b + a) * (d + b - a) * (d - b + a) * (d + b + a)))


def expected(d, rays):
    """[(direction, omega, lum, index)] of the rays that count in a 180 degree view"""
    avg = sum(r[2] for r in rays) / len(rays)
    f = ref.unit(d)
    out = []
    for i, (v, o, l) in enumerate(rays):
        t = ref.angle(d, v)
        a, b = math.pi / 2, math.sqrt(o / math.pi)
        if t < a:
            out.append((ref.unit(v), o, l, i))
        elif math.degrees(t) < 91 and l > 10 * avg and t < a + b:
            x = (a * a - b * b + t * t) / (2 * t)
            u = ref.unit(tuple(p - q * math.cos(t) for p, q in zip(ref.unit(v), f)))
            out.append((tuple(math.cos(x) * p + math.sin(x) * q for p, q in zip(f, u)), lens(a, b, t), l, i))
    return out


def compare(s, want, colours=None):
    close(s.vec, np.array([w[0] for w in want]).reshape(-1, 3), 1e-7, 0, "directions used")
    close(s.lum, np.array([w[2] for w in want]), 1e-9, 1e-9, "luminances used")
    close(s.omega, np.array([w[1] for w in want]), 1e-11, 1e-6, "solid angles used")
    close(s.view_area, sum(w[1] for w in want), 1e-9, 1e-9, "view area")


def strays(ctx, d, idx, dim, at, cls=MetricSet):
    rays = filler(d)
    own = [(glare.direction(d, *PAL[i][:2]), PAL[i][2], 1e4 * (1 + i) if PAL[i][3] and not (dim >> k) & 1 else 1.) for k, i in enumerate(idx)]
    if at == "end":
        rays = rays + own
    elif at == "start":
        rays = own + rays
    else:
        for k, r in enumerate(own):
            rays.insert((k * 29 + 3) % len(rays), r)
    want = expected(d, rays)
    V, O, L = (np.array([r[j] for r in rays]) for j in range(3))
    V = V * np.resize([1., 3., .2], len(V))[:, None]
    cp = V.copy(), O.copy(), L.copy()
    vm = ViewMapper(d, 180)
    s = cls(V, O, L, vm)
    compare(s, want)
    for x, y, n in zip((V, O, L), cp, ("directions", "solid angles", "luminances")):
        same(x, y, f"given {n} changed")
    m = dict(zip(("illum", "avglum"), s(["illum", "avglum"])))
    close(m["illum"], 179 * sum(w[1] * w[2] * ref.dot(w[0], ref.unit(d)) for w in want), 1e-9, 1e-6, "illuminance")
    close(m["avglum"], 179 * sum(w[1] * w[2] for w in want) / sum(w[1] for w in want), 1e-9, 1e-6, "average luminance")
    # the next set sees nothing of this one
    compare(cls(V, O, L, vm), want)


def g_strays(ctx, vi, k, part, parts, ordered):
    d = VIEWS[vi]
    it = itertools.permutations(range(len(PAL)), k) if ordered else itertools.combinations(range(len(PAL)), k)
    for j, idx in enumerate(it):
        if j % parts != part:
            continue
        for dim in range(2 ** min(k, 2) if ordered else 2 ** k):
            if any((dim >> q) & 1 and not PAL[i][3] for q, i in enumerate(idx)):
                continue
            at = ("end", "start", "spread")[(j + dim) % 3]
            ctx.run((d, idx, dim, at), strays, ctx, d, idx, dim, at, MetricSet if (j + dim) % 2 else BaseMetricSet)


def g_levels(ctx):
    """how bright is bright: either side of ten times the average, for each overlapping ray; colour sets follow the luminance"""
    for d in VIEWS:
        for i in (2, 3, 4, 6, 11):
            for ratio in (.5, 5, 9.5, 10.5, 20, 60):
                for extra in ((), (0,), (10,)):
                    def one():
                        rays = filler(d) + [(glare.direction(d, *PAL[e][:2]), PAL[e][2], 30.) for e in extra]
                        s, n = sum(r[2] for r in rays), len(rays) + 1
                        # l / ((s + l) / n) == ratio
                        l = ratio * s / (n - ratio)
                        rays = rays + [(glare.direction(d, *PAL[i][:2]), PAL[i][2], l)]
                        want = expected(d, rays)
                        check((len(rays) - 1 in [w[3] for w in want]) == (ratio > 10), "model")
                        V, O, L = (np.array([r[j] for r in rays]) for j in range(3))
                        compare(MetricSet(V, O, L, ViewMapper(d, 180)), want)
                        c = ColorMetricSet(V, O, np.stack((L, L * 2, L * .5), -1), ViewMapper(d, 180), vlambda=(.5, .125, .5))
                        compare(c, want)
                        w = [x[3] for x in want]
                        close(c.rgb, np.stack((L, L * 2, L * .5), -1)[w], 1e-12, 1e-12, "colours used")
                    ctx.run((d, i, ratio, extra), one)


def g_inview(ctx, tier, vi):
    """other view angles, dark rays: exactly the rays in view (up to the edge within rounding)"""
    mer = range(0, 360, 30)
    for d in VIEWS[vi:vi + 1]:
        for va in (360, 180, 150, 90, 40, 10):
            H = math.degrees(ref.half_angle(va)) if va != 360 else 180
            angs = [0, .3 * H, .99 * H, .9999 * H] + ([] if va == 360 else [H * 1.0001, H + 1, (H + 180) / 2, 180])
            for lum in (0., 1., "mixed"):
                for oa in (True, False):
                    for sub in range(1, 2 ** len(angs)) if tier != "quick" else list(range(1, 2 ** len(angs)))[::3]:
                        def one():
                            use = [a for q, a in enumerate(angs) if (sub >> q) & 1]
                            rays = [(glare.direction(d, m, a), .001 * (1 + m / 30 + q) if (m // 30 + q + sub) % 4 else 0., (1. + m % 7 + q) if lum == "mixed" else lum) for m in mer for q, a in enumerate(use)]
                            want = [(r[0], r[1], r[2]) for r in rays if va == 360 or ref.angle(d, r[0]) < math.radians(H)]
                            V, O, L = (np.array([r[j] for r in rays]) for j in range(3))
                            s = MetricSet(V, O, L, ViewMapper(d, va), omega_as_view_area=oa)
                            if len(want) > 100 and not oa:
                                return
                            compare(s, want)
                        ctx.run((d, va, lum, oa, sub), one)


def correction(d, inner, edge, n_edge, total, cls):
    """rays: inner ones spread over the view, edge ones close to the edge; their sum is (view area) * total"""
    rays = []
    A = 2 * math.pi
    n = inner + n_edge
    share = A * total / n
    for i in range(inner):
        a = math.degrees(math.acos(1 - .75 * (i + .5) / max(inner, 1)))
        rays.append((glare.direction(d, (i * 137.508) % 360, a), share * (.8 if i % 2 else 1.2)))
    for i in range(n_edge):
        rays.append((glare.direction(d, (i * 360 / max(n_edge, 1) + 7) % 360, edge + (i % 3) * .4), share * (.9 if i % 2 else 1.1)))
    V = np.array([r[0] for r in rays])
    O = np.array([r[1] for r in rays])
    keep = O.copy()
    s = cls(V, O, np.ones(len(O)), ViewMapper(d, 180), omega_as_view_area=False)
    same(O, keep, "given solid angles changed")
    close(s.vec, V, 1e-9, 0, "directions")
    if len(rays) <= 100:
        same(s.omega, O, "solid angles of up to 100 rays")
        close(s.view_area, O.sum(), 1e-9, 1e-9, "view area of few rays")
        return
    close(s.view_area, A, 1e-9, 1e-9, "view area")
    ang = np.array([ref.angle(d, v) for v in V])
    side = np.sqrt(O)
    excess = O.sum() - A
    while True:
        on = ang > math.pi / 2 - side
        check(not np.any(np.abs(ang - (math.pi / 2 - side)) < 1e-9), "set-up: ray on the border")
        tot = O[on].sum()
        if tot > 0 and abs(excess - tot) < 1e-9:
            return
        if tot <= 0 or excess <= tot:
            break
        side = side * 1.1
    if tot <= 0:
        same(s.omega, O, "no ray at the edge")
        return
    close(s.omega[~on], O[~on], 0, 1e-12, "solid angles away from the edge")
    close(s.omega[on], O[on] * (1 - excess / tot), 1e-12, 1e-9, "solid angles at the edge")
    close(s.omega.sum(), A, 1e-9, 1e-9, "total solid angle")
    check(s.omega >= 0, "negative solid angle")
    close(s.avglum, 179., 1e-9, 1e-9, "average of a uniform field")
    b = cls(V, O, np.ones(len(O)), ViewMapper(d, 180), omega_as_view_area=True)
    same(b.omega, O, "solid angles as given")
    close(b.view_area, O.sum(), 1e-9, 1e-9, "sum as view area")


def g_correction(ctx, tier, vi):
    inn = (0, 60, 97, 98, 99, 101, 150, 400, 620) if tier == "quick" else (0, 1, 30, 60, 90, 95, 96, 97, 98, 99, 100, 101, 102, 150, 250, 400, 1000, 3000)
    for d in VIEWS[vi:vi + 1]:
        for inner, edge, ne, total, cls in itertools.product(inn, (60, 80.1, 86.3, 88.9), (0, 1, 3, 10, 60, 120), (.5, .9, .99, .999, 1., 1.001, 1.02, 1.31, 2.03), (BaseMetricSet, MetricSet)):
            if inner + ne == 0:
                continue
            ctx.run((d, inner, edge, ne, total, cls.__name__), correction, d, inner, edge, ne, total, cls)


def groups(tier):
    if tier == "quick":
        gs = [(f"strays {vi} {k}", g_strays, vi, k, 0, 1, False) for vi in range(4) for k in (0, 1, 2)]
        gs += [(f"strays 1 3 {p}", g_strays, 1, 3, p, 4, False) for p in range(4)]
        gs += [("orders 0", g_strays, 0, 2, 0, 1, True), ("orders 3", g_strays, 3, 2, 0, 1, True)]
    else:
        gs = [(f"strays {vi} {k} {p}", g_strays, vi, k, p, 8, False) for vi in range(4) for k in (0, 1, 2, 3, 4, 5) for p in range(8)]
        gs += [(f"orders {vi} {k} {p}", g_strays, vi, k, p, 8, True) for vi in range(4) for k in (2, 3) for p in range(8)]
    return gs + [("brightness", g_levels)] + [(f"in view {vi}", g_inview, tier, vi) for vi in range(4)] + [(f"correction {vi}", g_correction, tier, vi) for vi in range(4)]
