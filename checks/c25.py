"""Two live mappers (of every pair of kinds: planar, angular 180, 360 and 90 degrees, equisolid) undergo every sequence of operations up to depth 3 (quick) / 4
(thorough): re-aiming either mapper to one of several directions (given as tuple, unnormalized list or array that the caller overwrites afterwards; including straight up and down, and to directions close to the former), changing the
aspect of a planar or full-sphere mapper, the origin or the jitter rate, and queries at two resolutions whose results the caller overwrites. A model tracks the settings; every query in the sequence and a battery
of all public queries at its end must equal those of a new mapper with these settings, computed in a pristine process."""
import numpy as np

from mc.core import Violation
from mc.history import Explorer
from checks.c22 import answers
from raytools.mapper import Mapper, SolidViewMapper, ViewMapper

RULE = "one case per operation sequence; trivial for the empty one"

DIRS = dict(up=(0, 0, 1), down=(0, 0, -1), east=(1, 0, 0), skew=(.3, -.8, .4), near=(.5, 1, 0), tilt=(0, 1, .02), hair=(.004, 1, 0), hairy=(-1e-5, 1, 2e-5))
VEC = np.array([(1, 0, 0), (0, 1, 0), (.6, .8, 0), (-.48, .6, .64), (.36, -.48, .8), (0, -.6, -.8), (.28, .96, 0), (-1, 0, 0)], float)
UV = np.array([(.1, .2), (.5, .6), (.9, .35), (.25, .75)])


def make(kind, s):
    d, aspect, origin, jit = s
    if kind == "plane":
        return Mapper(d, sf=(2, 3), bbox=((-1, 1), (1, 4)), aspect=aspect, origin=origin, jitterrate=jit)
    if kind == "solid":
        m = SolidViewMapper(d, 180, origin=origin, jitterrate=jit)
    else:
        m = ViewMapper(d, int(kind), origin=origin, jitterrate=jit)
    if aspect is not None:
        m.aspect = aspect
    return m


def own(a):
    """copy of a result, which is then overwritten as its owner may do"""
    if isinstance(a, tuple):
        return [own(i) for i in a]
    if isinstance(a, np.ndarray):
        c = a.copy()
        if a.flags.writeable and a.base is None:
            try:
                a[...] = 1
            except (ValueError, TypeError):
                pass
        return c
    return a


def queries(kind):
    q = {}
    plane = kind == "plane"
    for r in (3, 5):
        q[f"framesize{r}"] = lambda m, r=r: tuple(m.framesize(r))
        q[f"pixels{r}"] = lambda m, r=r: own(m.pixels(r))
        q[f"pixelrays{r}"] = lambda m, r=r: own(m.pixelrays(r))
        q[f"init{r}"] = lambda m, r=r: own(m.init_img(r))
        q[f"ray2pixel{r}"] = lambda m, r=r: own(m.ray2pixel(VEC.copy(), r))
        q[f"omega{r}"] = lambda m, r=r: own(m.pixel2omega(m.pixels(r).reshape(-1, 2), r))
    q["in_view"] = lambda m: own(m.in_view(VEC.copy()))
    q["in_view_mask"] = lambda m: own(m.in_view(VEC.copy(), False))
    q["uv2xyz"] = lambda m: own(m.uv2xyz(UV.copy(), stackorigin=True))
    q["xyz2uv"] = lambda m: own(m.xyz2uv(VEC.copy()))
    q["xyz2vxy"] = lambda m: own(m.xyz2vxy(VEC.copy()))
    q["vxy2xyz"] = lambda m: own(m.vxy2xyz(UV.copy(), stackorigin=True))
    q["view2world"] = lambda m: own(m.view2world(VEC.copy()))
    q["world2view"] = lambda m: own(m.world2view(VEC.copy()))
    q["idx2uv"] = lambda m: own(m.idx2uv(np.arange(4), (2, 2), False))

    def jit(m):
        with answers((0., .75)):
            return own(m.idx2uv(np.arange(4), (2, 2)))
    q["jitter"] = jit
    q["header"] = lambda m: m.header()
    q["attributes"] = lambda m: [np.array(m.dxyz), m.aspect, np.array(m.bbox), m.area, np.array(m.origin), m.jitterrate]
    q["draw"] = lambda m: own(m.add_vecs_to_img(np.zeros((2,) + ((10, 5) if m.aspect == 2 and not plane else (5, 5))), VEC.copy(), (1, 2)))
    if not plane:
        q["angles"] = lambda m: [own(m.ctheta(VEC)), own(m.degrees(VEC)), m.viewangle]
        q["color"] = lambda m: own(m.init_img(3, (1, 2, 3), features=3))
        q["square"] = lambda m: own(m.init_img(3, viewproj="uv"))
        q["drawuv"] = lambda m: own(m.add_vecs_to_img(np.zeros((10, 5) if m.aspect == 2 else (5, 5)), VEC.copy(), 1., fisheye=False))
        q["solid"] = lambda m: [own(m.solid_vxy2xyz(UV.copy(), stackorigin=True)), own(m.solid_xyz2vxy(VEC[:4].copy()))]
    if kind == "360":
        q["ivm"] = lambda m: m.aspect == 2 and [np.array(m.ivm.dxyz), own(m.ivm.pixelrays(3)), own(m.ivm.in_view(VEC, False)), own(m.ivm.xyz2uv(VEC.copy()))]
    if kind == "180":
        q["transform"] = lambda m: own(m.transform_to(np.arange(25.).reshape(5, 5), SolidViewMapper(m.dxyz, 180)))
    return q


def battery(kind, m):
    out = {}
    for k, f in queries(kind).items():
        with np.errstate(all="ignore"):
            out[k] = f(m)
    return out


def quiet(f):
    def g(w):
        with np.errstate(all="ignore"):
            return f(w)
    return g


def ops(kinds, dirs, asked, extra):
    o = {}
    for i, kind in enumerate(kinds):
        n = "AB"[i]

        def upd(j, v, i=i):
            def model(s):
                t = list(s)
                u = list(t[i])
                u[j] = v
                t[i] = tuple(u)
                return tuple(t)
            return model
        for dn in dirs:
            d = DIRS[dn]

            def aim(w, d=d, i=i):
                a = np.array(d, float)
                w[i].dxyz = a
                a[:] = 7
            o[f"{n}.dxyz={dn}"] = (aim, upd(0, d), None)
        if "forms" in extra:
            def scaled(w, i=i):
                a = [3 * k for k in DIRS["skew"]]
                w[i].dxyz = a
                a[0] = 99
            o[f"{n}.dxyz=scaled list"] = (scaled, upd(0, DIRS["skew"]), None)
        if kind in ("plane", "360"):
            for a in (.5, 2) if kind == "plane" else (1, 2):
                def asp(w, a=a, i=i):
                    w[i].aspect = a
                o[f"{n}.aspect={a}"] = (asp, upd(1, a), None)
        if "settings" in extra:
            def org(w, i=i):
                w[i].origin = (1, 2, 3)

            def jit(w, i=i):
                w[i].jitterrate = .25
            o[f"{n}.origin"] = (org, upd(2, (1, 2, 3)), None)
            o[f"{n}.jitterrate"] = (jit, upd(3, .25), None)
        qs = queries(kind)
        for k in (asked or qs):
            if k in qs:
                o[f"{n}?{k}"] = (quiet(lambda w, f=qs[k], i=i: f(w[i])), None, (i, k))
    return o


def explorer(ctx, kinds, dirs, asked, extra):
    s0 = tuple(((0, 1, 0), None, (0, 0, 0), .5) for _ in kinds)

    class Fresh(Explorer):
        def expected(self, k):
            return super().expected(k)
    return Explorer(ctx, "/".join(kinds), lambda: [make(k, s) for k, s in zip(kinds, s0)], tuple((k,) + s for k, s in zip(kinds, s0)),
                    {n: (f, (lambda s, m=m: tuple((k,) + u for k, u in zip(kinds, m(tuple(x[1:] for x in s))))) if m else None, q)
                     for n, (f, m, q) in ops(kinds, dirs, asked, extra).items()},
                    lambda w, i: battery(kinds[i], w[i]), lambda k: battery(k[0], make(k[0], k[1:])))


def g_seq(ctx, kinds, dirs, asked, extra, depth, part, parts):
    ex = explorer(ctx, kinds, dirs, asked, extra)
    names = list(ex.ops)
    first = [n for j, n in enumerate(names) if j % parts == part] + ([""] if part == 0 else [])
    ex.run(depth, first)


KINDS = ("plane", "180", "360", "90", "solid")


def groups(tier):
    q = tier == "quick"
    g = []
    few = ("pixelrays3", "init5", "in_view")
    # every query and every setting on one object
    for k in KINDS:
        g.append((f"one {k}", g_seq, (k,), ("up", "skew", "near", "tilt", "hair", "hairy") if q else tuple(DIRS), None, ("forms", "settings"), 2, 0, 1))
        parts = 1 if q else 4
        for p in range(parts):
            g.append((f"deep {k} {p}", g_seq, (k,), ("up", "down", "skew", "near") if q else tuple(DIRS), few, ("forms", "settings") if not q else (), 3 if q else 4, p, parts))
    for i, a in enumerate(KINDS):
        for b in KINDS[i:]:
            g.append((f"two {a} {b}", g_seq, (a, b), ("up", "near") if q else ("up", "skew", "near"), ("pixelrays3", "in_view") if q else few, (), 3, 0, 1))
    return g
