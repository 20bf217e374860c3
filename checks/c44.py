"""One or two live glare models, made in every documented way (no view, a view mapper, a view file, an image, an image without a view), undergo every sequence of operations up to depth 3 (quick) / 4 (thorough): loading images (also a very dark one) of the same and of other
resolutions (and failing to load a missing one), changing the view (mappers of other directions and view angles, image, none), changing the observer (age, pigmentation), computing with and without an external illuminance, saving the response, using the
steps one by one and overwriting what they returned. A model tracks image, view and observer; every score in the sequence and a battery of all results at its end must equal those of a new object with these settings, made in a pristine process;
computing without an image is an error."""
import os

import numpy as np

from mc.core import scratch
from mc.history import Explorer
from checks.c25 import own
from raytools import io
from raytools.evaluate.hvsgsm import GSS
from raytools.mapper import ViewMapper

RULE = "one case per operation sequence; trivial for the empty one"

VIEWS = {"default": ((0, 1, 0), 180), "east": ((1, 0, 0), 180), "skew": ((.3, -.8, .4), 180), "narrow": ((0, 1, 0), 120), "a": ((-1, 0, 0), 180), "vf": ((0, -1, 0), 180)}
# content, resolution, view in the header
IMAGES = {"a": (1, 20, "a"), "b": (2, 20, None), "c": (3, 27, "a"), "rgb": (4, 20, None), "dark": (2, 20, None)}


def image(kind, res):
    y, x = np.mgrid[0:res, 0:res] / res
    r = np.hypot(x - .5, y - .5)
    img = 1. + x + .5 * y * kind
    px, py = {1: (.5, .5), 2: (.2, .6), 3: (.7, .35), 4: (.4, .75)}[kind]
    img[np.hypot(x - px, y - py) < .08] = 300. * kind
    img[r > .5] = 0 if kind != 2 else 5.
    return img


def files():
    for n, (kind, res, v) in IMAGES.items():
        h = [f"VIEW= -vta -vv 180 -vh 180 -vd {' '.join(str(i) for i in VIEWS[v][0])} -vp 0 0 0 -vu 0 0 1"] if v else []
        img = image(kind, res) * (1e-7 if n == "dark" else 1)
        if n == "rgb":
            io.carray2hdr(np.stack((img, img * .5, img * 2)), f"{n}.hdr", h)
        else:
            io.array2hdr(img, f"{n}.hdr", h)
    with open("v.vf", "w") as f:
        f.write("rvu -vta -vp 0 0 0 -vd 0 -1 0 -vu 0 0 1 -vh 180 -vv 180\n")


def mapper(v):
    return ViewMapper(*VIEWS[v])


def score(g, **kw):
    with np.errstate(all="ignore"):
        try:
            return float(g.compute(**kw))
        except ValueError as e:
            return f"ValueError {'image' in str(e)}"


def saved(g):
    s = score(g, save="out.hdr")
    if not isinstance(s, float):
        return [s, os.path.exists("out.hdr")]
    a = io.hdr2carray("out.hdr")
    os.remove("out.hdr")
    return [s, a]


def steps(g):
    """the steps one by one; what they return is overwritten"""
    with np.errstate(all="ignore"):
        try:
            e_g, pa, pd = g.adapt()
        except ValueError:
            return ["no image"]
        lum = g.lum.copy()
        r, arr = g.glare_response(lum, e_g, pa, pd, return_arrays=True)
        lum[:] = 7
        out = [e_g, pa, pd, own(r), {k: own(v) for k, v in arr.items()}]
        return out


def steps_ev(g):
    with np.errstate(all="ignore"):
        try:
            e_g, pa, pd = g.adapt(250.)
        except ValueError:
            return ["no image"]
        return [e_g, pa, pd, own(g.glare_response(g.lum, e_g, pa, pd))]


QUERIES = {
    "compute": score,
    "compute 900 lux": lambda g: score(g, ev_eye=900.),
    "compute 12000 lux": lambda g: score(g, ev_eye=12000.),
    "save": saved,
    "steps": steps,
    "steps 250 lux": steps_ev,
}


def battery(g):
    out = {k: q(g) for k, q in QUERIES.items()}
    out["view"] = [np.array(g.vm.dxyz), g.vm.viewangle]
    if g.lum is not None:
        out["state"] = [np.array(g.lum), g.res, np.array(g.vecs), np.array(g.omega), np.array(g.mask), np.array(g.ctheta), np.array(g.sigma_c), float(g.ecc)]
    else:
        out["state"] = None
    return out


START = {
    "plain": (lambda: GSS(), (None, "default")),
    "none": (lambda: GSS(None), (None, "default")),
    "mapper": (lambda: GSS(mapper("skew")), (None, "skew")),
    "narrow": (lambda: GSS(mapper("narrow")), (None, "narrow")),
    "viewfile": (lambda: GSS("v.vf"), (None, "vf")),
    "image": (lambda: GSS("a.hdr"), ("a", "a")),
    "viewless": (lambda: GSS("b.hdr"), ("b", "default")),
}


def fresh(k):
    kind, img, view, age, pig = k
    g = GSS(mapper(view), age=age, pigmentation=pig)
    if img is not None:
        g.lum = f"{img}.hdr"
    return battery(g)


def ops(n, images, views, asked, extra):
    o = {}
    for i in range(n):
        N = "AB"[i] if n > 1 else ""

        def upd(j, v, i=i):
            def model(s):
                t = list(s)
                u = list(t[i])
                u[j] = v
                t[i] = tuple(u)
                return tuple(t)
            return model
        for im in images:
            def load(w, im=im, i=i):
                w[i].lum = f"{im}.hdr"
            o[f"{N}load {im}"] = (load, upd(1, im), None)
        for v in views:
            def aim(w, v=v, i=i):
                w[i].vm = mapper(v)
            o[f"{N}view {v}"] = (aim, upd(2, v), None)
        if "none" in extra:
            def unset(w, i=i):
                w[i].vm = None
            o[f"{N}view none"] = (unset, upd(2, "default"), None)

            def asimage(w, i=i):
                w[i].vm = "a.hdr"
            o[f"{N}view of image a"] = (asimage, upd(2, "a"), None)

            def viewless(w, i=i):
                w[i].vm = "b.hdr"
            o[f"{N}view of image b"] = (viewless, upd(2, "default"), None)
        if "missing" in extra:
            def missing(w, i=i):
                try:
                    w[i].lum = "missing.hdr"
                except (ValueError, OSError):
                    return
                raise AssertionError("missing image loaded")
            o[f"{N}load missing"] = (missing, None, None)
        if "observer" in extra:
            def older(w, i=i):
                w[i].age = 70

            def blue(w, i=i):
                w[i].pigmentation = .16
            o[f"{N}age"] = (older, upd(3, 70), None)
            o[f"{N}pigmentation"] = (blue, upd(4, .16), None)
        for k in asked:
            o[f"{N}?{k}"] = (lambda w, f=QUERIES[k], i=i: f(w[i]), None, (i, k))
    return o


def g_seq(ctx, starts, images, views, asked, extra, depth, part, parts):
    with scratch():
        files()
        ex = Explorer(ctx, "/".join(starts), lambda: [START[s][0]() for s in starts], tuple((s,) + START[s][1] + (40, .106) for s in starts), ops(len(starts), images, views, asked, extra),
                      lambda w, i: battery(w[i]), fresh, atol=1e-10, rtol=1e-7)
        # the way an object was made must not matter
        e, memo = ex.expected, {}

        def expected(k):
            k = ("any",) + k[1:]
            return e(k)
        ex.expected = expected
        names = list(ex.ops)
        first = [n for j, n in enumerate(names) if j % parts == part] + ([""] if part == 0 else [])
        ex.run(depth, first)


def groups(tier):
    q = tier == "quick"
    g = []
    for s in START:
        g.append((f"one {s}", g_seq, (s,), ("a", "b", "c", "rgb", "dark"), ("east", "narrow"), list(QUERIES), ("none", "missing", "observer"), 2, 0, 1))
    for s in (("image", "plain") if q else START):
        parts = 6 if q else 16
        for p in range(parts):
            g.append((f"deep {s} {p}", g_seq, (s,), ("a", "b", "c"), ("east", "narrow"), ("compute", "compute 900 lux"), () if q else ("missing", "observer"), 3 if q else 4, p, parts))
    for a, b in (("image", "viewless"),) if q else (("image", "viewless"), ("plain", "image"), ("mapper", "narrow")):
        parts = 6 if q else 8
        for p in range(parts):
            g.append((f"two {a} {b} {p}", g_seq, (a, b), ("a", "c"), ("narrow",), ("compute",) if q else ("compute", "compute 900 lux"), (), 2 if q else 3, p, parts))
    return g
