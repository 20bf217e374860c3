"""A table of the public calls (every function of translate, io, imagetools, utility and retina that takes arrays, every mapper query and setter, the metric
sets with every metric, the position index, every stage of the glare model, and the file writers) is executed with each argument layout: float64
C-contiguous, non-contiguous view, Fortran order, read-only, float32, integer and, where the argument is used through numpy, nested lists (layouts a call does not accept are
skipped only if the call rejects them on a fresh copy as well and they are not one of the first four). Bytes, shape and dtype of every argument (and the parent array of views) are compared before and after, the call is repeated
with the same argument objects and must return the same answer, and the answers of the four float64 layouts must agree. Around every call the numpy error
handling, print options, numpy's global random state, environment, working directory, warning filters, and the names and contents of the files in the working directory are
compared; only the requested output file may appear. The image given to the drawing functions is excepted: it is the target."""
import copy
import hashlib
import os
import warnings

import numpy as np

from mc.core import check, close, fail, same, scratch
from mc.interleave import equal

RULE = "one case per (call, argument layout); trivial when the call has no array argument"


def A(*a):
    return np.array(a, dtype=float)


def dirs(n=6):
    i = np.arange(n) + 1.
    d = np.stack((np.sin(1.3 * i), np.cos(2.1 * i), np.sin(.7 * i)), 1)
    return d / np.linalg.norm(d, axis=1)[:, None]


def front(n=6):
    d = dirs(n)
    d[:, 1] = abs(d[:, 1]) + .1
    return d / np.linalg.norm(d, axis=1)[:, None]


def table():
    """{group: [(name, fn, args)]}"""
    from raytools import translate as tr, io, imagetools as it, utility
    from raytools.evaluate import retina, BaseMetricSet, MetricSet, ColorMetricSet, PositionIndex
    from raytools.evaluate import hvsgsm
    from raytools.mapper import ViewMapper, SolidViewMapper, Mapper
    D, F = dirs(), front()
    V = D * np.arange(1, 7)[:, None]
    UV = np.stack((np.linspace(.05, 1.9, 8), np.linspace(.9, .1, 8)), 1)
    T = {}
    t = T["translate"] = []
    for n, a in (("norm", [V]), ("norm1", [V[0]]), ("uv2xy", [UV]), ("uv2xyz", [UV]), ("xyz2uv", [D]), ("xyz2xy", [D]), ("tpnorm", [UV * 3]),
                 ("tp2xyz", [UV * 1.5]), ("xyz2tp", [D]), ("aa2xyz", [UV * 40]), ("xyz2aa", [D]), ("chord2theta", [UV[:, 0]]),
                 ("theta2chord", [UV[:, 0]]), ("ctheta", [D[0], D]), ("radians", [D[0], D]), ("degrees", [D[0], D]),
                 ("rmtx_yp", [V]), ("rmtx_yp", [V[2]]), ("resample", [UV]), ("simple_take", [UV])):
        t.append((n, getattr(tr, n), a))
    t += [("xyz2uv norm", lambda v: tr.xyz2uv(v, normalize=True, flipu=True), [V]),
          ("skybin", lambda v: tr.xyz2skybin(v, 4, tol=.02, normalize=True), [V[:1]]), ("skybins", lambda v: tr.xyz2skybin(v, 4), [D]),
          ("skybin2xyz", lambda b: tr.skybin2xyz(b, 4), [np.arange(5.)]),
          ("uv2ij", lambda v: tr.uv2ij(v, 5), [UV]), ("uv2bin", lambda v: tr.uv2bin(v, 5), [UV]),
          ("bin2uv", lambda b: tr.bin2uv(b, 5, .3), [np.arange(5.)]),
          ("tp2xyz raw", lambda v: tr.tp2xyz(v, normalize=False), [UV]),
          ("resample up", lambda v: tr.resample(v, (16, 6)), [UV]), ("resample down", lambda v: tr.resample(v, (4, 1)), [UV]),
          ("resample blur", lambda v: tr.resample(v, radius=2), [UV]), ("resample box", lambda v: tr.resample(v, gauss=False, radius=2), [UV]),
          ("quantile", lambda d, w, q: tr.weighted_quantile(d, w, q), [A(3, 1, 2, 2, 5), A(1, 0, 2, 1, 1), A(0, .3, 1)]),
          ("quantile plain", lambda d, q: tr.weighted_quantile(d, None, q), [A(3, 1, 2, 2, 5), A(0, .3, 1)]),
          ("median", lambda d, w: tr.weighted_median(d, w), [A(3, 1, 2, 2, 5), A(1, 0, 2, 1, 1)]),
          ("filter", lambda x, y: tr.non_uniform_gaussian_filter(x, y), [A(3, 1, 2, 7), A(1, 2, 3, 4)]),
          ("filter M", lambda x, y: tr.non_uniform_gaussian_filter(x, y, sigma=.5, bw=2), [A(3, 1, 2, 7), A([1, 2, 3, 4], [4, 2, 1, 8])]),
          ("filter xr", lambda x, y, xr: tr.non_uniform_gaussian_filter(x, y, xr, sigma=.4, bw=None, amethod="median"),
           [A(1, 2, 3, 7), A(1, 2, 3, 4), A(0, 5, 2)]),
          ("filter q", lambda x, y, q: tr.non_uniform_gaussian_filter(x, y, sigma=.4, amethod=q), [A(3, 1, 2, 7), A(1, 2, 3, 4), A(.1, .9)]),
          ("rotate_elem", lambda v: tr.rotate_elem(v, 30, 1), [D]), ("cull", lambda v: tr.cull_vectors(v, .5), [D]),
          ("reflect", lambda r, n: tr.reflect(r, n), [D[:1], D[1:4]]),
          ("reflect masked", lambda r, n: tr.reflect(r, n, True), [D[:1], D[1:4]]),
          ("take", lambda a: tr.simple_take(a, [2, 1], None), [UV]),
          ("take list", lambda a: tr.simple_take(UV, a, axes=0), [[2, 1]]),
          ("rmtx keep", lambda v: tr.rmtx_yp(v, keepdims=True), [V])]
    t = T["large"] = []
    k = np.arange(120.)
    x, w, D2 = np.sin(k * 1.7) * 5, 1 + np.cos(k), dirs(120)
    for n, a in (("norm", [D2 * 2]), ("uv2xyz", [np.abs(D2[:, :2])]), ("xyz2uv", [D2]), ("uv2xy", [np.abs(D2[:, :2])]), ("xyz2xy", [D2]), ("xyz2tp", [D2]), ("xyz2aa", [D2]),
                 ("tpnorm", [D2[:, :2] * 9]), ("ctheta", [D2[0], D2]), ("degrees", [D2[0], D2]), ("resample", [D2])):
        t.append((n, getattr(tr, n), a))
    t += [("quantile plain", lambda d, q: tr.weighted_quantile(d, None, q), [x, A(.1, .5)]), ("quantile one", lambda d: tr.weighted_quantile(d, None, .5), [x]),
          ("quantile", lambda d, w, q: tr.weighted_quantile(d, w, q), [x, w, A(.1, .5)]), ("quantile t", lambda d, w, q: tr.weighted_quantile(d, w, q, .5), [x, w, A(.1, .5)]),
          ("median", lambda d, w: tr.weighted_median(d, w), [x, w]), ("median plain", lambda d: tr.weighted_median(d), [x]), ("cull", lambda v: tr.cull_vectors(v, .2), [D2]),
          ("skybins", lambda v: tr.xyz2skybin(v, 6), [D2]), ("reflect", lambda r, n: tr.reflect(r, n), [D2[:1], D2[1:]]), ("rmtx", tr.rmtx_yp, [D2[3]]),
          ("filter", lambda a, b: tr.non_uniform_gaussian_filter(a, b, sigma=.5), [k, x]),
          ("filter median", lambda a, b: tr.non_uniform_gaussian_filter(a, b, sigma=.5, amethod="median"), [k, x]),
          ("resample up", lambda v: tr.resample(v, (240, 3)), [D2]), ("resample blur", lambda v: tr.resample(v, radius=2), [D2])]
    t = T["io"] = []
    img = np.arange(1., 13).reshape(3, 4)
    cimg = np.arange(1., 37).reshape(3, 3, 4)
    H = ["a line", "\tVIEW= -vta -vd 0 1 0", "x.hdr:", "\tFOO= 2", "\tFOO= 2"]
    t += [("np2bytes", io.np2bytes, [img]), ("rgb2rad", io.rgb2rad, [cimg.T]), ("rgb2lum", io.rgb2lum, [cimg.T]),
          ("rgb2rad w", io.rgb2rad, [cimg[..., :3], A(.2, .3, .5)]),
          ("rgbe2lum", io.rgbe2lum, [np.arange(16.).reshape(4, 4) * 8 + 100]),
          ("clean_header", io.clean_header, [H]), ("header_items", io.header_items, [H, ["foo", "view"]]),
          ("bytes2np", lambda b: io.bytes2np(b, (3, 4)), [np.arange(12, dtype="<f").tobytes()]),
          ("load_txt", lambda a: exc(io.load_txt, a), [img])]
    w = T["write"] = []
    w += [("array2hdr", lambda a, h: io.array2hdr(a, "out.hdr", h), [img, ["x y", "z"]]),
          ("carray2hdr", lambda a, h: io.carray2hdr(a, "out.hdr", h), [cimg, ["x y", "z"]]),
          ("carray2hdr clean", lambda a, h: io.carray2hdr(a, "out.hdr", h, clean=True), [cimg, list(H)]),
          ("array2hdr clean", lambda a, h: io.array2hdr(a, "out.hdr", h, clean=True), [img, list(H)]),
          ("np2bytefile", lambda a: io.np2bytefile(a, "out.hdr"), [img]),
          ("hdr_rotate", lambda c: it.hdr_rotate("in.hdr", "out.hdr", 20, c), [A(3, 4)]),
          ("hdr_uv2ang", lambda: it.hdr_uv2ang("in.hdr", "out.hdr"), []),
          ("hdr_ang2uv", lambda: it.hdr_ang2uv("in.hdr", outf="out.hdr"), []),
          ("hdr_solid2ang", lambda: it.hdr_solid2ang("in.hdr", "out.hdr"), [])]
    r = T["read"] = []
    r += [("hdr2array", lambda v: io.hdr2array("in.hdr", vlambda=v), [A(.2, .3, .5)]), ("hdr2carray", lambda: io.hdr2carray("in.hdr", header=True), []),
          ("hdr_header", lambda i: io.hdr_header("in.hdr", items=i), [["view", "foo"]]), ("hdr2vm", lambda: it.hdr2vm("in.hdr", True)[1], []),
          ("hdr2vol", lambda v: it.hdr2vol("in.hdr", vlambda=v), [A(.2, .3, .5)]),
          ("imgmetric", lambda m: it.imgmetric("in.hdr", m), [["dgp", "illum"]]),
          ("imgmetric peak", lambda m, l: it.imgmetric("in.hdr", m, peakn=True, lumrgb=l), [["ugr", "illum"], [.2, .3, .5]]),
          ("gss_compute", lambda f, e: hvsgsm.gss_compute(f, e), [["in.hdr", "in.hdr"], [100., 200.]]),
          ("missing", lambda: exc(io.hdr2array, "none.hdr"), []), ("foreign", lambda: exc(io.hdr2array, "text.txt"), []),
          ("load_txt", lambda: io.load_txt("text.txt"), [])]
    m = T["mapper"] = []
    PX = A([0, 1], [2, 2], [1.5, .5])
    VXY = A([.3, .4], [.5, .5], [.9, .6])
    maps = [("view180", ViewMapper((.3, 1, .2), 180)), ("view360", ViewMapper((.3, 1, .2), 360)), ("view100", ViewMapper((0, .2, -1), 100)),
            ("solid", SolidViewMapper((.3, 1, .2), 180)), ("solid90", SolidViewMapper((.3, 1, .2), 90)),
            ("plane", Mapper(sf=(2, 1), bbox=((0, 0), (2, 1))))]
    for n, vm in maps:
        for f in ("xyz2uv", "uv2xyz", "xyz2vxy", "vxy2xyz", "view2world", "world2view", "ctheta", "radians", "degrees"):
            if hasattr(vm, f):
                m.append((n + " " + f, getattr(vm, f), [{"uv2xyz": UV * .5, "vxy2xyz": VXY}.get(f, D)]))
        m += [(n + " origin", lambda v, vm=vm: vm.vxy2xyz(v, stackorigin=True), [VXY]),
              (n + " uvorigin", lambda v, vm=vm: vm.uv2xyz(v, stackorigin=True), [UV * .5]),
              (n + " ray2pixel", lambda v, vm=vm: vm.ray2pixel(v, 5), [D]),
              (n + " ray2pixelf", lambda v, vm=vm: vm.ray2pixel(v, 5, False), [D]),
              (n + " pixel2ray", lambda v, vm=vm: vm.pixel2ray(v, 5), [PX]),
              (n + " pixel2omega", lambda v, vm=vm: vm.pixel2omega(v, 5), [PX]),
              (n + " in_view", lambda v, vm=vm: vm.in_view(v), [D]),
              (n + " in_view mask", lambda v, vm=vm: vm.in_view(v, False), [D]),
              (n + " idx2uv", lambda v, vm=vm: vm.idx2uv(v, (3, 4), False), [np.arange(5)]),
              (n + " idx2uv jitter", lambda v, vm=vm: np.floor(vm.idx2uv(v, (4, 4)) * 4), [np.arange(5)]),
              (n + " uv2idx", lambda v, vm=vm: vm.uv2idx(v, (3, 4)), [UV * .5]),
              (n + " pixels", lambda vm=vm: vm.pixelrays(4), []),
              (n + " init_img", lambda vm=vm, n=n: vm.init_img(4, features=3)[:4] if n != "plane" else vm.init_img(4)[0], []),
              (n + " draw", lambda v, c, vm=vm: vm.add_vecs_to_img(np.zeros((3, 5 * int(vm.aspect), 5)), v, c), [F[:3], A(1, 2, 3)]),
              (n + " draw2", lambda v, vm=vm: vm.add_vecs_to_img(np.zeros((5 * int(vm.aspect), 5)), v, 2, grow=1), [F[:3]])]
        if n != "plane":
            m += [(n + " solidpix", lambda v, vm=vm: vm.solid_ray2pixel(v, 5), [F]), (n + " solidray", lambda v, vm=vm: vm.solid_pixel2ray(v, 5), [PX]),
                  (n + " draw uv", lambda v, vm=vm: vm.add_vecs_to_img(np.zeros((5 * int(vm.aspect), 5)), v, 2, fisheye=False), [F[:3]]),
                  (n + " draw mask", lambda v, a, b, vm=vm: vm.add_vecs_to_img(np.zeros((5 * int(vm.aspect), 5)), v, 2, mask=(a, b)),
                   [F[:3], np.arange(5), np.arange(5)])]
        m.append((n + " dxyz", lambda v, n=n: setd(dict(maps)[n], v), [A(1, 2, 3)]))
    for c in (ViewMapper, SolidViewMapper):
        m.append((c.__name__, lambda v, c=c: c(v, 120).dxyz, [A(1, 2, 3)]))
    m.append(("Mapper", lambda s, b: Mapper(sf=s, bbox=b).area, [A(1, 2), A([0, 0], [1, 2])]))
    m.append(("transform", lambda a: ViewMapper(viewangle=180).transform_to(a, SolidViewMapper(viewangle=180)), [np.arange(36.).reshape(6, 6)]))
    i = T["image"] = []
    sq = np.arange(36.).reshape(6, 6) + 1
    csq = np.arange(108.).reshape(3, 6, 6) + 1
    for k, a in (("gray", sq), ("color", csq)):
        i += [("uv2ang " + k, it.array_uv2ang, [a]), ("ang2uv " + k, it.array_ang2uv, [a]),
              ("rotate " + k, lambda a, c: it.array_rotate(a, 33, c), [a, A(2, 3)]),
              ("rotate4 " + k, lambda a, c: it.array_rotate(a, 33, c, rotate_first=False, nearest=True), [a, A(2, 3, 4, 4)]),
              ("solid " + k, lambda a: it.array_solid2ang(a, returnvm=False), [a]),
              ("solid r " + k, lambda a: it.array_solid2ang(a, True, True, returnvm=False), [a])]
    o = A(1e-5, 2e-5, 3e-5, .1, .1, .1)
    v = F.copy()
    v[1] = v[0] + (.001, 0, 0)
    v[2] = v[0] - (.001, 0, 0)
    l = A(2e6, 1.8e6, 1e6, 10, 20, 1000)
    for k, L in (("gray", l), ("color", l[:, None] * A(.5, 1, 2)), ("dim", l / 1e6)):
        for kw in (dict(), dict(returnparts=True), dict(keepzeros=True), dict(blursun=True, returnall=False), dict(findsecondary=True), dict(peakc=2)):
            i.append((f"peak {k} {kw}", lambda v, o, l, kw=kw: it.normalize_peak(v, o, l, **kw), [v, o, L]))
    e = T["evaluate"] = []
    for n, vm in (("180", ViewMapper((0, 1, 0), 180)), ("360", ViewMapper((0, 1, 0), 360)), ("150", ViewMapper((0, 1, .2), 150))):
        ve = np.concatenate((F, [[1, -.005, 0], [-1, -.004, .1], [1, -.003, 1]], -F[:2]))
        om = np.concatenate((np.full(6, .1), A(.05, .06, .07), A(.1, .1)))
        lu = np.concatenate((A(10, 20, 3000, 40, 50, 60), A(1e6, 2e6, 3e6), A(5, 5)))
        for cls, cl in ((BaseMetricSet, lu), (MetricSet, lu), (ColorMetricSet, lu[:, None] * A(.5, 1, 2))):
            for kw in (dict(), dict(omega_as_view_area=True), dict(guth=False), dict(threshold=5)):
                if "threshold" in kw and cls is BaseMetricSet:
                    continue
                e.append((f"{cls.__name__} {n} {kw}", lambda v, o, l, cls=cls, vm=vm, kw=kw: mset(cls, v, o, l, vm, kw), [ve, om, cl]))
        for g in (True, False):
            e.append((f"position {n} {g}", lambda v, vm=vm, g=g: PositionIndex(g).positions(vm, v), [V]))
    big = np.stack(np.meshgrid(np.linspace(-1, 1, 12), np.linspace(-1, 1, 12)), -1).reshape(-1, 2)
    big = np.stack((big[:, 0], 1 - .5 * np.sum(big ** 2, 1), big[:, 1]), 1)
    for oa in (True, False):
        e.append((f"omega {oa}", lambda v, o, l, oa=oa: mset(MetricSet, v, o, l, ViewMapper((0, 1, 0), 180), dict(omega_as_view_area=oa)),
                  [big, np.full(len(big), 2 * np.pi / 144), np.arange(len(big)) + 1.]))
    e.append(("positions_vec", lambda a, v: PositionIndex().positions_vec(a, v), [A(0, 2, 1), V]))
    xy = dirs()[:, :2] * .9
    for n, a in (("rgcf_density", [xy]), ("rgc_density", [xy]), ("binocular_density", [xy]), ("rgcf_density_xy", [xy * 90]),
                 ("hpsf", [xy[:, 0]]), ("inv_hpsf", [A(.1, .5, 1)]), ("blur_sun", [A(6e-5, 1e-4), A(1e3, 1e9)]),
                 ("rgcf_density_on_meridian", [A(1, 20, 60, 90), np.arange(4)]), ("rgc_density_on_meridian", [A(1, 20, 60, 90), np.arange(4)])):
        e.append((n, getattr(retina, n), a))
    gs = T["gss"] = []
    im = np.arange(1., 145).reshape(12, 12)

    def g(**kw):
        x = hvsgsm.GSS(**kw)
        x.lum = "in12.hdr"
        return x
    gs += [("retinal", lambda a: g().retinal_irradiance(a, 10.), [im]), ("psf", lambda a: g().apply_psf(a, 4.), [im]),
           ("move1", lambda a: g().apply_eye_movement_1(a), [im]), ("move2", lambda a: g().apply_eye_movement_2(a, 3.), [im]),
           ("local", lambda a: g().local_eye_adaptation(a, 3.), [im]), ("cone", lambda a, b: g().cone_response(a, b), [im, im + 1]),
           ("field", lambda a: g().field_response(a), [im / 200]), ("norm", lambda a: g().normalized_field_response(a), [im / 200]),
           ("gss", lambda a: g().gss(np.stack((a, a))), [im / 200]), ("glare", lambda a: g().glare_response(a, 3., 10., 4.), [im]),
           ("compute", lambda: g().compute(), []), ("pupil", lambda a: g().pupil(a), [A(10, 100)])]
    u = T["utility"] = []
    u += [("pool", lambda a: utility.pool_call(np.add, a, cap=2, pbar=False), [[(1, 2), (3, 4)]]),
          ("pool plain", lambda a, b: utility.pool_call(np.add, a, b, expandarg=False, cap=2, pbar=False), [A(1, 2, 3), A(4, 5)]),
          ("pool none", lambda a, b: utility.pool_call(np.add, a, b, expandarg=False, cap=1, pbar=False), [A(1, 2, 3), A(4, 5)])]
    return T


def exc(f, *a):
    try:
        f(*a)
    except Exception as e:
        return type(e).__name__
    return "no error"


def setd(vm, v):
    vm.dxyz = v
    return vm.dxyz, vm.pixelrays(3)


def mset(cls, v, o, l, vm, kw):
    ms = cls(v, o, l, vm, **kw)
    d = np.array(vm.dxyz)
    with np.errstate(all="ignore"):
        out = [ms(cls.allmetrics), ms(), ms.omega, ms.vec, ms.view_area]
    same(vm.dxyz, d, "the view of the metric set changed")
    return out


def layouts(a):
    """[(layout, value, parents)] of one argument"""
    if not isinstance(a, np.ndarray):
        return {k: copy.deepcopy(a) for k in LAY}
    ro = a.copy()
    ro.flags.writeable = False
    return dict(C=a.copy(), view=np.repeat(np.repeat(a, 2, -1), 2, 0)[..., ::2][::2] if a.ndim > 1 else np.repeat(a, 2)[::2],
                F=np.asfortranarray(a), ro=ro, f32=a.astype(np.float32) if a.dtype.kind == "f" else a.astype(np.int32),
                int=np.round(a).astype(int), list=a.tolist())


LAY = ("C", "view", "F", "ro", "f32", "int", "list")


def snap(o):
    if isinstance(o, np.ndarray):
        b = o.base if isinstance(o.base, np.ndarray) else o
        return o.tobytes(), o.shape, o.dtype.str, b.tobytes()
    if isinstance(o, (list, tuple)):
        return type(o).__name__, [snap(i) for i in o]
    return repr(o)


def world():
    fs = {}
    for f in sorted(os.listdir(".")):
        with open(f, "rb") as h:
            fs[f] = hashlib.blake2b(h.read()).hexdigest()
    rs = np.random.get_state()
    return dict(err=np.geterr(), print=np.get_printoptions(), rand=(rs[0], rs[1].tobytes(), rs[2:]), env=dict(os.environ),
                cwd=os.getcwd(), warn=list(warnings.filters), files=fs)


def diff(a, b, allow=()):
    for k in a:
        x, y = a[k], b[k]
        if k == "files":
            x, y = [{n: h for n, h in z.items() if n not in allow} for z in (x, y)]
        if x != y:
            d = [i for i in set(x) | set(y) if x.get(i) != y.get(i)] if isinstance(x, dict) else ""
            fail(f"the call changed the process state: {k} {d}")


def setup():
    from raytools import io
    from raytools.mapper import ViewMapper
    h = ViewMapper((0, 1, 0), 180).header()
    io.carray2hdr(np.arange(1., 193).reshape(3, 8, 8), "in.hdr", [h, "FOO= bar"])
    io.array2hdr(np.arange(1., 145).reshape(12, 12), "in12.hdr", [h])
    with open("text.txt", "w") as f:
        f.write("1 2 3\n4 5 6\n")


def g_table(ctx, grp, part, parts):
    with scratch():
        setup()
        T = table()[grp]
        np.seterr(all="warn", under="ignore")
        warnings.simplefilter("ignore")
        for name, fn, args in T[part::parts]:
            ref = []
            for lay in LAY if any(isinstance(a, np.ndarray) for a in args) else LAY[:1]:
                def go():
                    a = [layouts(x)[lay] for x in args]
                    before, s = world(), [snap(x) for x in a]
                    allow = ("out.hdr",) if grp == "write" else ()
                    err = None
                    try:
                        r = fn(*a)
                        r0 = copy.deepcopy(r)
                    except Exception as e:
                        err = e
                    diff(before, world(), allow)
                    for k, (x, y) in enumerate(zip(s, a)):
                        check(snap(y) == x, f"argument {k} was modified")
                    if err is not None:
                        if lay in LAY[:4]:
                            raise err
                        return
                    if grp == "write":
                        with open("out.hdr", "rb") as f:
                            c1 = f.read()
                    r2 = fn(*a)
                    check(equal(r0, r2), "the second call with the same arguments gives another answer")
                    check(equal(r0, r), "the first answer changed when the call was repeated")
                    for k, (x, y) in enumerate(zip(s, a)):
                        check(snap(y) == x, f"argument {k} was modified")
                    diff(before, world(), allow)
                    if grp == "write":
                        with open("out.hdr", "rb") as f:
                            c2 = f.read()
                        check(c1[-20:] == c2[-20:], "the second call writes other pixels")
                    if lay in LAY[:4]:
                        ref.append(r0)
                        check(equal(ref[0], r0), "the answer depends on the memory layout of the arguments")
                ctx.run([name, lay], go)


def groups(tier):
    return [(f"{g} {k}", g_table, g, k, n) for g, n in (("gss", 4), ("read", 4), ("write", 4), ("evaluate", 4), ("mapper", 2), ("image", 2),
                                                      ("translate", 1), ("large", 1), ("io", 1), ("utility", 1)) for k in range(n)]
