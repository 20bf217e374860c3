"""Every stage of the eye model. Small images with every single-pixel source (position x strength x background), pairs and patterns, at several resolutions and view angles from 2 to 180 degrees (windows of odd and even size), x stage switches, observers, scales, focal lengths and external
illuminances: every array of the documented stages and the score against an independent model with its own convolutions; responses between 0 and 1, zero outside the view, scores finite and not negative, mirror images alike, scale of the image and scale
factor interchangeable. Uniform images through every stage stay uniform. Lattices of illuminance x age (pupil), x pigmentation (spread coefficients: sum one, positive; line and point spread integrate to their share), irradiance x adaptation (cone response
between 0 and 1, increasing with stimulus, decreasing with adaptation), field response lattice (logistic, increasing / decreasing). The optical spread is linear, never negative, and of unit total for every window and observer."""
import itertools
import math
import os
import tempfile

import numpy as np

from mc import eye, ref
from mc.core import check, close, fail, same
from raytools import io
from raytools.evaluate import hvsgsm
from raytools.evaluate.hvsgsm import GSS
from raytools.mapper import ViewMapper

RULE = "one case per (image, options, illuminance) or lattice point; all non-trivial"

BASE = dict(age=40, f=16.67, scale=179, pigmentation=.106, fwidth=10, psf=True, adaptmove=True, directmove=True, raw=False)
OPTIONS = [dict(), dict(psf=False, adaptmove=False, directmove=False), dict(psf=False), dict(adaptmove=False, age=70), dict(directmove=False, pigmentation=.16), dict(raw=True, age=22), dict(fwidth=25, f=18.), dict(fwidth=4, pigmentation=.056),
           dict(psf=False, directmove=False, raw=True), dict(adaptmove=False, directmove=False, fwidth=14), dict(scale=1.), dict(psf=False, adaptmove=False, age=15)]
KEYS = ("retinal_irrad", "psf", "adapt_eye_movement", "direct_eye_movement", "local_adaptation", "response_ratio", "response_lin")


def load(g, a):
    """the image goes through a file; returned as the file holds it"""
    with tempfile.TemporaryDirectory(prefix="rt46_") as d:
        f = os.path.join(d, "image.hdr")
        io.array2hdr(a, f)
        g.lum = f
        return np.array(io.hdr2array(f), float)


def pattern(kind, res):
    """(array of image values in units of the default scale)"""
    y, x = np.meshgrid(np.arange(res), np.arange(res))
    a = np.full((res, res), .2)
    if kind == "ramp":
        a = .05 + x / res + .3 * y / res
    elif kind == "checks":
        a = .1 + 20. * ((x + y) % 2)
    elif kind == "half":
        a = np.where(y > res / 2, 8., .3)
    elif kind == "zero":
        a = np.where(np.hypot(x - res * .6, y - res * .4) < res * .12, 500., 0.)
    elif kind == "window":
        a[res // 3:res // 2 + 1, res // 2:res // 2 + 3] = 60.
    elif kind == "sun":
        a[res // 2 - 1, res // 2 + 1] = 2e6
    return a


def prepare(a, o, held=False, va=180):
    g = GSS(ViewMapper((0, 1, 0), va), **o)
    a = load(g, a)
    return (g, a) if held else g


def verify(a, o, ev=None, va=180):
    g, a = prepare(a, o, True, va)
    full = dict(BASE, **o)
    res = len(a)
    vm = ViewMapper((0, 1, 0), va)
    rho = np.hypot(*np.meshgrid(*[(np.arange(res) + .5) / res * 2 - 1] * 2, indexing="ij"))
    mask = rho < 1
    omega = np.where(mask, vm.pixel2omega(vm.pixels(res), res), 0)
    ct = np.maximum(0, np.cos(rho * ref.half_angle(va)))
    win = int(math.ceil(full["fwidth"] * res / va))
    oga = ViewMapper((0, 1, 0), full["fwidth"]).pixel2omega(vm.pixels(win), win)
    c = eye.stages(a * full["scale"], omega, mask, ct, full, ev, oga, va)
    same(g.mask.reshape(res, res), mask, "view mask")
    with np.errstate(all="ignore"):
        e_g, pa, pd = g.adapt(ev)
        r, arr = g.glare_response(g.lum, e_g, pa, pd, return_arrays=True)
        score = g.compute(ev_eye=ev)
    arr = {k.split("_", 1)[1] if k[:2].isdigit() else k: v for k, v in arr.items()}
    close([e_g, pa, pd], [c["e_g"], c["pupil_area"], c["pupil_diameter"]], 1e-12, 1e-9, "adaptation")
    if "psf" in c:
        check("psf" in arr, "no array of the optical spread")
    for k in KEYS:
        if k in c and k in arr:
            top = float(np.max(np.abs(c[k])))
            close(arr[k], c[k], 1e-7 * top, 3e-6, f"stage {k}", where=~c["border"] if k == "response_lin" else None)
    check(set(k for k in KEYS if k in c) <= set(arr), "stages missing: %s", sorted(arr))
    close(r, c["response"], 1e-8, 1e-6, "response", where=~np.stack((c["border"],) * 2))
    check((r >= 0) & (r <= 1), "response outside 0..1")
    same(r[:, ~mask], np.zeros((2, np.sum(~mask))), "response outside the view")
    for k in ("retinal_irrad", "psf", "adapt_eye_movement", "direct_eye_movement", "local_adaptation"):
        if k in arr:
            check(arr[k] >= -1e-9 * np.max(arr[k]), "negative light after stage " + k)
    check((arr["response_ratio"] >= 0) & (arr["response_ratio"] < 1), "cone response outside 0..1")
    check(math.isfinite(score) and score >= 0, f"score {score}")
    if not c["border"].any():
        close(score, c["gss"], 1e-9, 1e-6, "score")
    close(g.ecc, c["ecc"], 1e-9, 1e-7, "eccentricity")
    return float(score)


def g_single(ctx, res, part, parts, tier):
    """every pixel as source"""
    n = 0
    for i in range(res):
        for j in range(res):
            for s, bg in ((50., .2), (3e4, 2.), (800., 0.), (2e6, 30.), (.5, .4)) if tier != "quick" else ((50., .2), (3e4, 2.), (800., 0.)):
                n += 1
                if n % parts != part:
                    continue
                if math.hypot((i + .5) / res * 2 - 1, (j + .5) / res * 2 - 1) >= 1 and bg == 0:
                    continue  # a dark view
                o = OPTIONS[(n // parts) % len(OPTIONS)]
                ev = (None, None, 150., 4000.)[(n // parts // len(OPTIONS)) % 4]
                a = np.full((res, res), bg)
                a[i, j] = s
                ctx.run((res, i, j, s, bg, o, ev), verify, a, o, ev)


def g_pattern(ctx, res):
    for kind in ("flat", "ramp", "checks", "half", "zero", "window", "sun"):
        a = pattern(kind, res)
        for o in OPTIONS:
            for ev in (None, 10., 1e5):
                def one():
                    s = verify(a, o, ev)
                    if ev is None and (not dict(BASE, **o)["psf"] or int(math.ceil(dict(BASE, **o)["fwidth"] * res / 180)) % 2):
                        g = prepare(a[::-1], o)
                        with np.errstate(all="ignore"):
                            close(g.compute(), s, 1e-9, 1e-6, "mirror image")
                    k = 4.
                    q = dict(BASE, **o)
                    q["scale"] = q["scale"] / k
                    g = prepare(a * k, q)
                    with np.errstate(all="ignore"):
                        close(g.compute(ev_eye=ev), s, 1e-9, 1e-7, "scaled image and scale factor")
                ctx.run((res, kind, o, ev), one)


def g_narrow(ctx, va, tier):
    """images of a small view, where every stage reaches over many pixels"""
    for res in (8, 11, 16, 24) if tier == "quick" else (8, 11, 12, 16, 17, 24, 33, 48):
        for kind in ("ramp", "checks", "half", "zero", "window", "sun"):
            a = pattern(kind, res)
            for o in (dict(fwidth=va * .7), dict(psf=False), dict(psf=False, adaptmove=False, directmove=False), dict(fwidth=va * 1.3, age=70, adaptmove=False), dict(directmove=False, psf=False, raw=True)):
                for ev in (None, 25., 3000.):
                    ctx.run((va, res, kind, o, ev), verify, a, o, ev, va)


def g_uniform(ctx, tier):
    """uniform fields stay uniform in every filter stage; the optical spread is linear and never negative"""
    for res in (9, 14, 18, 19, 36, 37) + ((60, 90) if tier != "quick" else ()):
        for o in (dict(), dict(fwidth=25), dict(age=80, pigmentation=.16), dict(age=20, fwidth=4)):
            rng = [pattern(k, res) for k in ("ramp", "checks", "zero")]
            g = prepare(rng[0], o)
            for val in (1e-6, .3, 1., 2000.):
                u = np.full((res, res), val)
                for pd in (2., 4.5, 8.):
                    ctx.run((res, o, val, pd, "spread"), lambda: close(g.apply_psf(u, pd), u, 0, 1e-6, "spread of a uniform field"))
                ctx.run((res, o, val, "adaptation"), lambda: close(g.apply_eye_movement_1(u), u, 0, 1e-9, "movement of a uniform field"))
                for eg in (1e-3, .1, 10.):
                    ctx.run((res, o, val, eg, "direct"), lambda: close(g.apply_eye_movement_2(u, eg), u, 0, 1e-9, "movement of a uniform field"))
                    ctx.run((res, o, val, eg, "local"), lambda: close(g.local_eye_adaptation(u, eg), np.full(u.shape, val ** .8 * eg ** .2), 0, 1e-9, "adaptation to a uniform field"))
                v = np.full((res, res), min(val, .9))
                ctx.run((res, o, val, "field"), lambda: close(g.field_response(v), v * (1 - .67), 0, 1e-6, "field response to a uniform field"))
            for pd in (2., 4.5, 8.):
                def linear():
                    p = [g.apply_psf(a, pd) for a in rng]
                    for x in p:
                        check(x >= 0, "negative light")
                    close(g.apply_psf(rng[0] * 3 + rng[1] + rng[2], pd), 3 * p[0] + p[1] + p[2], 1e-9, 1e-9, "spread is not linear")
                ctx.run((res, o, pd, "linear"), linear)
            for a in rng:
                for f in (g.apply_eye_movement_1, lambda x: g.apply_eye_movement_2(x, .5)):
                    def mean():
                        m = f(a)
                        check((m >= a.min() - 1e-12) & (m <= a.max() * (1 + 1e-12)), "movement exceeds the range of the image")
                        close(m.mean(), a.mean(), 0, 1e-9, "movement changes the total")
                    ctx.run((res, o, a.tolist()[0][:2], f.__name__), mean)


def g_pupil(ctx, tier):
    n = 60 if tier == "quick" else 600
    evs = [10 ** (-6 + 11.5 * i / n) for i in range(n + 1)]
    ages = list(range(10, 96, 5 if tier == "quick" else 1))
    tab = np.zeros((len(ages), len(evs)))
    for i, age in enumerate(ages):
        g = GSS(age=age)
        for j, ev in enumerate(evs):
            def one():
                a, d = g.pupil(ev)
                close([a, d], eye.pupil(ev, age), 0, 1e-10, "pupil")
                check(2 <= d <= 8, "diameter %s", d)
                return d
            d = ctx.run((age, ev), one)
            tab[i, j] = d if d is not None else np.nan
        a, d = g.pupil(np.array(evs))
        ctx.run((age, "array"), lambda: close(d, tab[i], 0, 1e-12, "array of illuminances"))
        for pa in (a[0], a[-1]):
            ctx.run((age, "irradiance", float(pa)), lambda: close(g.retinal_irradiance(np.array([1., 20., 3e5]), pa), np.array([1., 20., 3e5]) * pa / 16.67 ** 2, 0, 1e-10, "retinal irradiance"))
    ctx.run("age", lambda: check(np.diff(tab, axis=0) <= 0, "the pupil grows with age"))
    ctx.run("light", lambda: check(np.diff(tab[0]) < 0, "the pupil grows with light"))
    ctx.run("daylight", lambda: check(np.diff(tab[:, np.array(evs) > 1500], axis=1) < 0, "the pupil grows with light"))


def g_spread(ctx, tier):
    ages = (20, 40, 60, 80) if tier == "quick" else range(15, 96, 5)
    for age, pig, pd in itertools.product(ages, (.056, .106, .142, .16), (2., 2.5, 3.2, 4., 5.5, 7., 8.)):
        def one():
            g = GSS(age=age, pigmentation=pig)
            bs, cs = g.psf_coef(pd)
            B, C = eye.coef(pd, age, pig)
            close(bs, B, 0, 1e-10, "widths")
            close(cs, C, 0, 1e-10, "shares")
            close(sum(cs), 1, 1e-12, 0, "shares do not total one")
            check(np.array(bs + cs) > 0, "not positive")
            for b, c in zip(bs, cs):
                # substitution tan(phi) = b tan(t): smooth integrands
                t = (np.arange(4000) + .5) / 4000 * math.pi / 2
                phi = np.arctan(b * np.tan(t))
                jac = b / (np.cos(t) ** 2 + b * b * np.sin(t) ** 2)
                close(2 * np.sum(hvsgsm.l_b(b, c, phi) * jac) * t[0] * 2, c, 0, 1e-6, "line spread does not integrate to its share")
                close(np.sum(hvsgsm.f_b(b, c, phi) * 2 * math.pi * np.sin(phi) * jac) * t[0] * 2, c, 0, 1e-5, "point spread does not integrate to its share")
                p = np.linspace(0, math.pi / 2, 50)
                if b < 1:
                    check((np.diff(hvsgsm.f_b(b, c, p)) < 0) & (np.diff(hvsgsm.l_b(b, c, p)) < 0), "spread does not fall with the angle")
                close(hvsgsm.f_b(b, c, p), [eye.psf(b, c, float(x)) for x in p], 0, 1e-10, "point spread")
        ctx.run((age, pig, pd), one)


def g_cone(ctx, tier):
    n = 60 if tier == "quick" else 400
    x = np.array([10 ** (-6 + 13 * i / n) for i in range(n + 1)])
    g = GSS()
    v = g.cone_response(x[:, None], x[None])
    ctx.bulk(v.size)
    sg = (5.701055 ** (1 / 2.55) + x ** (1 / 2.55)) ** 2.55
    ctx.run("formula", lambda: close(v, [[a ** .74 / (a ** .74 + s ** .74) for s in sg] for a in x], 0, 1e-9, "cone response"))
    ctx.run("range", lambda: check((v > 0) & (v < 1), "outside 0..1"))
    ctx.run("stimulus", lambda: check(np.diff(v, axis=0) > 0, "does not grow with the stimulus"))
    ctx.run("adaptation", lambda: check(np.diff(v, axis=1) < 0, "does not fall with adaptation"))
    ctx.run("dark", lambda: same(g.cone_response(np.zeros(3), np.array([1e-3, 1., 50.])), np.zeros(3), "response without light"))
    ctx.run("half", lambda: close(g.cone_response(sg, x), np.full(len(x), .5), 0, 1e-9, "half saturation"))
    for k in range(len(x)):
        ctx.run(("single", k), lambda: close([float(g.cone_response(x[k], a)) for a in x[::7]], v[k, ::7], 0, 1e-12, "single values"))
    for res in (6, 11):
        g = prepare(np.ones((res, res)), {})
        lin = np.linspace(-1, 1, res * res).reshape(res, res)
        m = g.mask.reshape(res, res)

        def field():
            r = g.normalized_field_response(lin.copy())
            close(r[0], np.where(m, 1 / (1 + np.exp(-22 * (lin - .25))), 0), 1e-15, 1e-9, "response of on centres")
            close(r[1], np.where(m, 1 / (1 + np.exp(22 * (lin + .25))), 0), 1e-15, 1e-9, "response of off centres")
            check((r >= 0) & (r <= 1), "outside 0..1")
            check(np.diff(r[0][m]) > 0, "does not grow")
            check(np.diff(r[1][m]) < 0, "does not fall")
        ctx.run(("logistic", res), field)
        for k in (1., 2., 3., 8.):
            def other():
                g = prepare(pattern("window", res), dict(raw=True))
                g.norm = k
                r = np.abs(np.sin(np.arange(2 * res * res))).reshape(2, res, res)
                close(g.gss(r), np.sum(r ** k * g.omega) ** (1 / k), 1e-12, 1e-9, "norm set on the model")
            ctx.run(("set norm", res, k), other)
        for raw in (True, False):
            for lev in (0., .2, 1.):
                def total():
                    g = prepare(pattern("window", res), dict(raw=raw))
                    r = np.full((2, res, res), lev)
                    w = g.omega
                    s = g.gss(r)
                    want = (2 * lev ** 4 * w.sum()) ** .25
                    if raw:
                        close(s, want, 1e-12, 1e-9, "norm of a constant response")
                    elif lev == 0:
                        close(s, 0, 1e-12, 0, "score without response")
                    else:
                        close(s / g.gss(r / 2), 2, 0, 1e-9, "score is not proportional to the response")
                ctx.run(("norm", res, raw, lev), total)


def groups(tier):
    q = tier == "quick"
    g = []
    for res in (9, 10, 13, 18) if q else (9, 10, 13, 18, 23, 30):
        parts = 3 if q else 8
        g += [(f"single {res} {p}", g_single, res, p, parts, tier) for p in range(parts)]
    g += [(f"pattern {r}", g_pattern, r) for r in ((8, 19, 27, 36, 50) if q else (8, 15, 19, 27, 36, 37, 50, 64, 81))]
    g += [(f"narrow {va}", g_narrow, va, tier) for va in ((2, 5, 20, 60) if q else (1, 2, 3.5, 5, 10, 20, 60, 120))]
    return g + [("uniform", g_uniform, tier), ("pupil", g_pupil, tier), ("spread", g_spread, tier), ("cone", g_cone, tier)]
