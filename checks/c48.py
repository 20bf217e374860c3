"""Every documented function and constructor with options: every set of up to two options left out, all but up to two left out, and all left out (the others given at
their documented default by name) must give the result of the call with every default spelled out; every option given by position, after the ones before it, must give the result of
the same value given by name. The inputs are chosen so that another value of the option changes a result (checked as part of the run: an option whose
other value changes nothing makes the case trivial). Random offsets draw from a generator seeded for the comparison."""
import inspect
import itertools
import os

import numpy as np

from mc.core import Violation, check, scratch
from mc.nested import equal
from raytools import imagetools, io, translate as tr, utility
from raytools.evaluate import BaseMetricSet, ColorMetricSet, MetricSet, PositionIndex, hvsgsm, retina
from raytools.mapper import Mapper, SolidViewMapper, ViewMapper
from raytools.mapper.perspectiveviewmapper import PerspectiveViewMapper

RULE = "one case per (function, options left out) and (function, option given by position); trivial where no other value of the options changes a result"
W = (0.265, 0.670, 0.065)
GRID = np.stack(np.meshgrid(np.arange(5) / 4.3 + .02, np.arange(4) / 3.7 + .01, indexing="ij"), -1).reshape(-1, 2)
DIRS = np.array([(x, y, z) for x in (-1, 0, 1) for y in (-1, 0, 1) for z in (-1, 0, 1) if (x, y, z) != (0, 0, 0)], float)
DIRS = DIRS / np.linalg.norm(DIRS, axis=1)[:, None]
OFF = DIRS + .1 * np.array((1, 2, 3)) / np.arange(1, 27)[:, None]
UNIT = OFF / np.linalg.norm(OFF, axis=1)[:, None]


def cone(deg, n):
    """unit vectors about +y at the given angles (degrees)"""
    a, t = np.radians(np.asarray(deg, float)), np.arange(len(deg)) * 2.39996
    return np.stack((np.sin(a) * np.cos(t), np.cos(a), np.sin(a) * np.sin(t))).T


def sun(k):
    """rays on fine rings about +y: (v, o, rgb)"""
    r = np.degrees(np.sqrt(6.7967e-05 / np.pi))
    d = np.arange(0, 6.5, .01 if k == 3 else .04) * r
    v = cone(d, len(d))
    n = len(d)
    x = np.arange(n)
    if k == 0:
        lum = np.geomspace(3e5, 2e4, n)      # crosses the threshold
        o = np.full(n, 1e-7)
    elif k == 1:
        lum = np.geomspace(9e6, 8e5, n)      # partial sun, ratio
        o = np.full(n, 4e-7)
    elif k == 2:
        lum = 1e9 * np.linspace(1, .5, n)    # full sun
        o = np.full(n, 1e-6)
    elif k == 3:
        lum = 1e9 * np.linspace(1, .5, n)
        o = np.full(n, 6.7967e-05 / 250)
    elif k == 4:
        # a second bright spot
        lum = np.where(x % 2, 6e5, 9e6) * np.geomspace(1, .8, n)
        v = np.where((x % 2)[:, None] == 1, v[:, [1, 0, 2]], v)
        o = np.full(n, 3e-7)
    else:
        # inside the collection radius, limit by radius
        lum = np.full(n, 2e6) - x
        o = np.full(n, 2e-8)
    hue = np.stack((1 + (x % 3) * .4, 1 + (x % 5) * .1, .5 + (x % 2) * 2)).T
    lum = lum / 179
    return v, o, lum, hue * (lum / (hue @ W))[:, None]


def rays(n=18):
    deg = np.array([2, 8, 14, 24.7, 29.4, 30.5, 31, 44, 55, 61, 70, 77, 83, 87, 88.9, 91, 120, 60])[:n]
    v = cone(deg, n)
    k = np.arange(n)
    lum = np.array([11.05, 11.3, 3, .4, 11.17, 60, 11.19, 2., 8., 400., 1., 3., 30., 1.5, .2, 5000., 9., 11.1725])[:n]
    o = .002 + .01 * (k % 4)
    rgb = np.stack((lum * (1 + k % 3 * .01), lum, lum * (.9 + k % 2 * .2))).T
    return v, o, lum, rgb


def image(n=12):
    a = np.indices((n, n)).sum(0) % 5 * .7 + .3
    a[n // 2, n // 2] = 900
    a[n // 2 + 2, n // 2 - 1] = 9000
    a[n // 2 - 3, n // 2 + 1] = 11.25
    return a


def vmstate(vm):
    r = [np.asarray(vm.dxyz), np.asarray(vm.origin), vm.name, vm.jitterrate, vm.aspect, vm.area, vm.uv2xyz(GRID), vm.vxy2xyz(GRID), vm.vxy2xyz(GRID, stackorigin=True)]
    for a in ("viewangle",):
        if hasattr(vm, a):
            r.append(np.asarray(getattr(vm, a)))
    return [i if isinstance(i, str) else np.asarray(i) for i in r]


def listing(root):
    return [(f, open(os.path.join(root, f), "rb").read()) for f in sorted(os.listdir(root))]


def stripped(b):
    """file content without the lines naming the command and the time"""
    h, _, px = b.partition(b"\n\n")
    return b"\n".join(i for i in h.split(b"\n") if b"pvalue" not in i and b"CAPDATE" not in i and b"GMT" not in i) + b"\n\n" + px


def table():
    """(name, function, list of positional inputs, defaults in order, other values)"""
    t = []

    def add(name, fn, inputs, others, /, **kw):
        t.append((name, fn, inputs, kw, others))
    # ------------------------------------------------------------ translate
    up = UNIT[UNIT[:, 2] > 0]
    add("uv2xyz", tr.uv2xyz, [(GRID,)], dict(axes=(1, 0, 2), xsign=-1), axes=(0, 1, 2), xsign=1)
    add("xyz2uv", tr.xyz2uv, [(OFF,), (UNIT,)], dict(normalize=True, axes=(1, 0, 2), flipu=True), normalize=False, axes=(0, 1, 2), flipu=False)
    # (a direction beside the border of a patch)
    edge = np.array([(.01, .01, 1.), (.3, .30001, .9), (-.5, .2, .4)])
    add("xyz2skybin", tr.xyz2skybin, [(e[None] / np.linalg.norm(e) * k, 4) for e in edge for k in (1, .6)], dict(tol=.1, normalize=True), tol=0, normalize=False)
    add("xyz2xy", tr.xyz2xy, [(up,)], dict(axes=(1, 0, 2), flip=True), axes=(0, 1, 2), flip=False)
    add("tp2xyz", tr.tp2xyz, [(GRID,)], dict(normalize=False), normalize=True)
    add("uv2ij", tr.uv2ij, [(GRID * (1.9, .9), 5)], dict(aspect=1), aspect=2)
    add("bin2uv", tr.bin2uv, [(np.arange(50), 5)], dict(offset=.51), offset=.5)
    sm = np.add.outer(np.arange(6.) ** 2, np.arange(6.)[::-1] * 3)
    add("resample", tr.resample, [(sm,)], dict(ts=(2, 2), gauss=False, radius=2.), ts=None, gauss=True, radius=None)
    add("resample down", tr.resample, [(sm, (3, 2)), (sm, (12, 6))], dict(gauss=False, radius=2.), gauss=True, radius=None)
    d = np.array([3., 1, 4, 1.5, 9, 2.6])
    add("weighted_quantile", tr.weighted_quantile, [(d,)], dict(weights=np.arange(6.), q=.51), weights=None, q=.5, t=0.)
    add("weighted_quantile of weighted data", tr.weighted_quantile, [(d, np.arange(1., 7))], dict(q=.51, t=1.5), q=.5, t=0.)
    add("weighted_median", tr.weighted_median, [(d.reshape(2, 3), np.arange(1., 7).reshape(2, 3))], dict(t=1.5), t=0.)
    x = np.cumsum(.5 + np.arange(2600) * 7 % 5 / 4.)
    y = x * (1 + .2 * np.sin(x / 300))
    xr = x[[0, 30, 600, 1300, 2000, 2599]] + .1
    add("non_uniform_gaussian_filter", tr.non_uniform_gaussian_filter, [(x[:60], y[:60])], dict(xr=xr[:3], sigma=2., sscale=1.02, amethod="median"), xr=None, sigma=None, sscale=1.0, bw=500, amethod="mean")
    add("non_uniform_gaussian_filter wide", lambda **k: tr.non_uniform_gaussian_filter(x, y, xr, 700., **k),
        [()], dict(sscale=1.02, bw=501, amethod="median"), sscale=1.0, bw=500, amethod="mean")
    add("rmtx_elem", tr.rmtx_elem, [(31.,)], dict(axis=1, degrees=False), axis=2, degrees=True)
    add("rotate_elem", tr.rotate_elem, [(UNIT, 31.)], dict(axis=1, degrees=False), axis=2, degrees=True)
    add("rmtx_yp", tr.rmtx_yp, [(UNIT[:1],), (UNIT,)], dict(keepdims=True), keepdims=False)
    add("reflect", tr.reflect, [(UNIT[:3], DIRS), (OFF[:3] * 2, DIRS)], dict(returnmasked=True), returnmasked=False)
    add("simple_take", tr.simple_take, [(sm, [0, 2], None), (sm, [1])], dict(axes=(1,)), axes=None)
    # ---------------------------------------------------------------- files
    nb = np.arange(12.).reshape(3, 4) / 7
    add("np2bytes", io.np2bytes, [(nb,)], dict(dtype="<d"), dtype="<f")
    add("bytes2np", io.bytes2np, [(nb.astype("<f").tobytes(), (3, 2, 2)), (nb.astype("<f").tobytes()[:32], (4, 2))], dict(dtype=">f"), dtype="<f")
    add("rgb2rad", io.rgb2rad, [(OFF,)], {"vlambda": [tuple(w + (i == j) * .001 for j, w in enumerate(W)) for i in range(3)]}, vlambda=W)
    add("rgb2lum", io.rgb2lum, [(OFF,)], {"vlambda": [tuple(w + (i == j) * .001 for j, w in enumerate(W)) for i in range(3)]}, vlambda=W)
    hd = ["/p/a.hdr:", "    k1=1 v", "    /q/b.hdr:", "        k2=2 w", "        cmd " + " ".join(f"-w{i}" for i in range(60))]
    add("CleanHeader", lambda *a, **k: [io.CleanHeader(*a, **k).header], [(hd,)], dict(spacespertab=2, outtab="  ", headerwidth=40), spacespertab=4, outtab="\t", headerwidth=150)

    def tofile(a, *p, **k):
        with scratch() as root:
            for m in range(2):
                io.np2bytefile(a * (m + 1), root + "/a", *p, **k)
            return listing(root)[0][1]
    add("np2bytefile", tofile, [(nb,)], dict(dtype="<d", mode="ab"), dtype="<f", mode="wb")

    def fromfile(a, *p, **k):
        with scratch() as root:
            io.np2bytefile(a, root + "/a")
            with open(root + "/a", "rb") as f:
                return io.bytefile2np(f, a.shape, *p, **k)
    add("bytefile2np", fromfile, [(nb,)], dict(dtype=">f"), dtype="<f")

    def write(f):
        def go(a, *p, **k):
            with scratch() as root:
                f(a, root + "/a.hdr", *p, **k)
                return stripped(listing(root)[0][1])
        return go
    hl = ["VIEW= -vta -vh 180 -vv 180", "line", "VIEW= -vta -vh 90 -vv 90", "    line"]
    add("array2hdr", write(io.array2hdr), [(nb,)], dict(header=hl), header=None, clean=False)
    add("array2hdr with header", write(lambda a, f, *p, **k: io.array2hdr(a, f, hl, *p, **k)), [(nb,)], dict(clean=True), clean=False)
    add("carray2hdr", write(io.carray2hdr), [(np.stack((nb, nb + 1, nb)),)], dict(header=hl), header=None, clean=False)
    add("carray2hdr with header", write(lambda a, f, *p, **k: io.carray2hdr(a, f, hl, *p, **k)), [(np.stack((nb, nb + 1, nb)),)], dict(clean=True), clean=False)

    def read(f, tidy=lambda r: r, gray=False):
        def go(hdr, *p, **k):
            with scratch() as root:
                cwd = os.getcwd()
                os.chdir(root)
                try:
                    io.carray2hdr(np.stack((image(), image() * (1 if gray else 2), image() + (not gray))), "a.hdr", hdr)
                    return tidy(f("a.hdr", *p, **k))
                finally:
                    os.chdir(cwd)
        return go
    strip = lambda r: [i for i in r if "pvalue" not in i] if isinstance(r, list) else r
    two = lambda r: [r[0], *strip(r[1])] if isinstance(r, tuple) else r
    v180 = ["VIEW= -vta -vv 180 -vh 180 -vd 0 1 0 -vp 1 2 3"]
    add("hdr2array", read(io.hdr2array, two), [(hl,)], dict(header=True, vlambda=(1, 0, 0)), stdin=None, header=False, vlambda=None)
    add("hdr2carray", read(io.hdr2carray, two), [(hl,)], dict(header=True), stdin=None, header=False)
    add("hdr_header", read(io.hdr_header, strip), [(hl,)], dict(clean=True, items=["VIEW"]), clean=False, items=None)
    add("hdr2vol", read(imagetools.hdr2vol), [(v180,)], dict(vm=ViewMapper((1, 0, 0), 90), color=True, vlambda=(1, 0, 0)), vm=None, color=False, vlambda=None)
    add("hdr2vm", read(imagetools.hdr2vm, lambda r: [str(r[1]), *vmstate(r[0])] if isinstance(r, tuple) else vmstate(r)), [(v180,)], dict(vpt=True), vpt=False)
    some = ["illum", "dgp", "srcarea", "maxlum", "backlum", "density"]
    add("imgmetric", read(lambda f, *p, **k: imagetools.imgmetric(f, some, *p, **k), gray=True), [(v180,)], dict(peakn=True, scale=100, lumrgb=[.3, .3, .4], threshold=300.),
        peakn=False, scale=179, lumrgb=None, threshold=2000., lowlight=False)

    add("imgmetric of a colour image", read(lambda f, *p, **k: imagetools.imgmetric(f, some, *p, **k)), [(v180,)], dict(peakn=True, scale=100, lumrgb=[.3, .3, .4]), peakn=False, scale=179, lumrgb=None)
    add("imgmetric of a dark image", read(lambda f, **k: imagetools.imgmetric(f, some, scale=.5, **k)), [(v180,)], dict(threshold=10., lowlight=True), threshold=2000., lowlight=False)

    def command(f, two, **fixed):
        """image command: name and content of the written file"""
        def go(*p, **k):
            with scratch() as root:
                a = image()
                if two:
                    a = np.concatenate((a, a * 2))
                io.carray2hdr(np.stack((a, a * 2, a[::-1] + 1)), root + "/in.hdr", [f"VIEW= -vta -vv {180 if two else 140} -vh {180 if two else 140} -vd 0 1 0 -vp 0 0 0"])
                k = {**fixed, **k}
                if isinstance(k.get("outf"), str):
                    k["outf"] = root + "/" + k["outf"]
                p = [root + "/" + i if isinstance(i, str) else i for i in p]
                f(root + "/in.hdr", *p, **k)
                return [n + ":" + str(hash(stripped(c).replace(root.encode(), b""))) for n, c in listing(root)]
        return go
    add("hdr_uv2ang", command(imagetools.hdr_uv2ang, 0), [()], dict(outf="x.hdr"), outf=None, stdout=False)
    add("hdr_ang2uv", command(imagetools.hdr_ang2uv, 0), [()], dict(useview=False, outf="x.hdr"), useview=True, outf=None, stdout=False)
    add("hdr_ang2uv of two halves", command(imagetools.hdr_ang2uv, 1), [()], dict(useview=False, outf="x.hdr"), useview=True, outf=None, stdout=False)
    add("hdr_solid2ang", command(imagetools.hdr_solid2ang, 0), [()], dict(outf="x.hdr", nearest=True, reverse=True, viewangle=100), outf=None, nearest=False, stdout=False, reverse=False, viewangle=None)
    add("hdr_rotate", command(imagetools.hdr_rotate, 0), [()], dict(outf="x.hdr", rotate=30., center=(4, 5)), outf=None, rotate=0.0, center=None, rotate_first=True, nearest=False, stdout=False)
    add("hdr_rotate turned", command(imagetools.hdr_rotate, 0, rotate=20., center=(4, 5)), [()], dict(rotate_first=False, nearest=True), outf=None, rotate_first=True, nearest=False, stdout=False)
    # --------------------------------------------------------------- images
    im = image()
    add("array_rotate", imagetools.array_rotate, [(im, 30.)], dict(center=(4, 5), rotate_first=True, fill_value=0., nearest=True), center=None, rotate_first=True, fill_value=None, nearest=False)
    add("array_rotate to centre", imagetools.array_rotate, [(im, 30., (4, 5)), (im, 30., (4, 5, 6, 6))], dict(rotate_first=False, fill_value=7., nearest=True), rotate_first=True, fill_value=None, nearest=False)
    add("array_ang2uv", imagetools.array_ang2uv, [(im,)], dict(vm=ViewMapper(viewangle=90)), vm=None)
    s2a = lambda r: [r[0], r[1].name, *vmstate(r[1])] if isinstance(r, tuple) else [r]
    add("array_solid2ang", lambda *a, **k: s2a(imagetools.array_solid2ang(*a, **k)), [(im,)], dict(nearest=True, reverse=True, viewangle=120, returnvm=False), nearest=False, reverse=False, viewangle=180, returnvm=True)
    scenes = [(v, o, l) for k in range(6) for v, o, g, c in [sun(k)] for l in (g, c)]
    pk = dict(scale=179, peaka=6.7967e-05, peakt=1e5, peakr=4, blurtol=.75, peakc=1.0, peakrad=4.0, findsecondary=False, blursun=False, vlambda=W)
    po = dict(scale=182, peaka=6.9e-5, peakt=1.02e5, peakr=4.1, blurtol=.77, peakc=[.98, 1.02], peakrad=4.08, findsecondary=True, blursun=True, vlambda=[tuple(w + (i == j) * .02 for j, w in enumerate(W)) for i in range(3)])
    add("find_peak", imagetools.find_peak, scenes, po, **pk)
    np_ = {k: pk[k] for k in ("scale", "peaka", "peakt", "peakr", "blursun", "blurtol")}
    np_.update(returnall=True, peakc=1.0, peakrad=4.0, returnparts=False, keepzeros=False, findsecondary=False, vlambda=W)
    add("normalize_peak", imagetools.normalize_peak, scenes, dict(po, returnall=False, returnparts=True, keepzeros=True), **np_)
    # -------------------------------------------------------------- metrics
    v, o, l, c = rays()
    vm = ViewMapper((0, 1, 0), 180)
    base = BaseMetricSet.allmetrics
    full = MetricSet.allmetrics

    def metric(cls, names, light):
        def go(*a, **k):
            m = cls(v, o, light, vm, *a, **k)
            return np.concatenate((np.ravel(m(names)), np.ravel(m()))), m.vec, m.omega
        return go
    add("BaseMetricSet", metric(BaseMetricSet, base, l), [()], dict(metricset=["avglum"], scale=182., omega_as_view_area=False), metricset=None, scale=179., omega_as_view_area=True, guth=True, warn=False)
    add("MetricSet", metric(MetricSet, full, l), [()], dict(metricset=["dgp"], scale=182., threshold=1990., guth=False, tradius=31., omega_as_view_area=True, lowlight=True),
        metricset=None, scale=179., threshold=2000., guth=True, tradius=30., omega_as_view_area=False, lowlight=False)
    add("MetricSet about task", lambda **k: MetricSet(v[3:], o[3:], l[3:], vm, ["tasklum", "threshold", "srcarea"], threshold=4., **k)(), [()], dict(tradius=[29., 30.6]), tradius=30.)
    grid = ViewMapper((0, 1, 0), 180)
    many = grid.pixelrays(16).reshape(-1, 3), grid.pixel2omega(grid.pixels(16), 16).ravel()
    mlum = 1 + np.arange(256) % 7 * 9.
    for cls, dim in ((BaseMetricSet, True), (MetricSet, False), (ColorMetricSet, False)):
        light = mlum if cls is not ColorMetricSet else mlum[:, None] * (1.1, .98, .9)
        kw = {} if cls is BaseMetricSet else dict(lowlight=False)
        add(f"{cls.__name__} of an image", lambda cls=cls, light=light, **k: np.ravel(cls(*many, light * .01, grid, cls.allmetrics, **k)()), [()], dict(omega_as_view_area=not dim, lowlight=True), omega_as_view_area=dim, **kw)
    add("ColorMetricSet", metric(ColorMetricSet, full + ["irradiance"], c), [()],
        dict(metricset=["dgp"], scale=182., threshold=1990., guth=False, tradius=31., omega_as_view_area=True, lowlight=True, vlambda=[tuple(w + (i == j) * .01 for j, w in enumerate(W)) for i in range(3)]),
        metricset=None, scale=179., threshold=2000., guth=True, tradius=30., omega_as_view_area=False, lowlight=False, vlambda=W)
    add("ColorMetricSet about task", lambda **k: ColorMetricSet(v[3:], o[3:], c[3:], vm, ["tasklum", "threshold", "srcarea"], threshold=4., **k)(), [()], dict(tradius=[29., 30.6]), tradius=30.)
    add("check_metrics", lambda n, **k: [str(i) for i in MetricSet.check_metrics(n, **k)], [(["dgp", "none"],)], dict(), raise_error=False)
    add("PositionIndex", lambda *a, **k: PositionIndex(*a, **k).positions(vm, v), [()], dict(guth=False), guth=True)
    add("positions_vec", lambda *a, **k: PositionIndex().positions_vec(*a, **k), [((0, 1, 0), v)], dict(), up=(0, 0, 1))
    # ------------------------------------------------------------------ eye
    deg = np.array([.01, .1, .2, 1., 3.])
    add("hpsf", retina.hpsf, [(deg,)], dict(fwhm=.185), fwhm=.183333)
    add("inv_hpsf", retina.inv_hpsf, [(np.array([.1, .5, .9]),)], dict(fwhm=.185), fwhm=.183333)
    add("blur_sun", retina.blur_sun, [(6e-5, 1e4), (np.array([6e-5, 1e-4]), np.array([1e3, 1e5]))], dict(lmin=280., fwhm=.185), lmin=279.33, fwhm=.183333)
    xy = np.array([(1., 2), (-3, 4), (20, -5), (-7, -40), (30, 30)])
    add("rgcf_density_xy", retina.rgcf_density_xy, [(xy,)], dict(func=retina.rgc_density_on_meridian), func=retina.rgcf_density_on_meridian)
    add("binocular_density", retina.binocular_density, [(xy,)], dict(func=retina.rgc_density_on_meridian), func=retina.rgcf_density_on_meridian)

    def load(g):
        with scratch() as root:
            g.lum = io.array2hdr(image(16) * 3, root + "/a.hdr")

    def eye(*a, **k):
        g = hvsgsm.GSS(*a, **k)
        load(g)
        return g.compute(), np.array([g.vm.viewangle, *g.vm.dxyz])
    add("GSS", eye, [()], dict(view=ViewMapper((0, 1, 0), 120), age=41, f=16.8, scale=182, pigmentation=.11, fwidth=11, psf=False, adaptmove=False, directmove=False, raw=True),
        view=None, age=40, f=16.67, scale=179, pigmentation=.106, fwidth=10, psf=True, adaptmove=True, directmove=True, raw=False)

    def near(**k):
        g = hvsgsm.GSS(ViewMapper(viewangle=6), **k)
        load(g)
        return g.compute()
    add("GSS of a narrow view", near, [()], dict(fwidth=20, psf=False, adaptmove=False, directmove=False), fwidth=10, psf=True, adaptmove=True, directmove=True)

    def response(**k):
        g = hvsgsm.GSS()
        load(g)
        r = g.glare_response(g.lum, *g.adapt(), **k)
        return [r[0], *r[1].values()] if isinstance(r, tuple) else r
    add("glare_response", response, [()], dict(return_arrays=True), return_arrays=False)

    def score(f):
        def go(*p, **k):
            with scratch() as root:
                a = image(16) * 3
                for n, i in (("a", a), ("b", a.T * 2)):
                    io.array2hdr(i, root + f"/{n}.hdr", ["VIEW= -vta -vv 180 -vh 180 -vd 0 1 0"])
                if k.get("outdir"):
                    k["outdir"] = root + "/" + k["outdir"]
                r = f(root, *[root + "/" + i if i == "o" else i for i in p], **k)
                return [np.asarray(r), *[os.path.relpath(os.path.join(p, i), root) for p, _, fs in sorted(os.walk(root)) for i in sorted(fs)]]
        return go
    add("gss_compute", score(lambda root, *p, **k: hvsgsm.gss_compute([root + "/a.hdr", root + "/b.hdr"], *p, **k)), [()], dict(illums=[1000., 2000.], save=True), illums=None, save=False, suffix="_rg.hdr", outdir=None)
    add("gss_compute saving", score(lambda root, *p, **k: hvsgsm.gss_compute([root + "/a.hdr", root + "/b.hdr"], None, True, *p, **k)), [()], dict(suffix="_x.hdr", outdir="o"), suffix="_rg.hdr", outdir=None)
    add("process_gss", score(lambda root, *p, **k: hvsgsm.process_gss(root + "/a.hdr", None, hvsgsm.GSS(), *p, **k)), [()], dict(outf=True), outf=False, outdir=None, suffix="_rg.hdr")
    # -------------------------------------------------------------- mappers
    add("ViewMapper", lambda *a, **k: vmstate(ViewMapper(*a, **k)), [()], dict(dxyz=(1, 0, 0), viewangle=[180, 359], name="n", origin=(1, 2, 3), jitterrate=.6), dxyz=(0., 1., 0.), viewangle=360., name="view", origin=(0, 0, 0), jitterrate=.5)
    add("SolidViewMapper", lambda *a, **k: vmstate(SolidViewMapper(*a, **k)), [()], dict(dxyz=(1, 0, 0), viewangle=179, name="n", origin=(1, 2, 3), jitterrate=.6), dxyz=(0., 1., 0.), viewangle=180., name="solidview", origin=(0, 0, 0), jitterrate=.5)
    add("PerspectiveViewMapper", lambda *a, **k: vmstate(PerspectiveViewMapper(*a, **k)), [()], dict(dxyz=(1, 0, 0), vv=101., vh=102., name="n", origin=(1, 2, 3), jitterrate=.6), dxyz=(0., 1., 0.), vv=100., vh=100., name="view", origin=(0, 0, 0), jitterrate=.5)
    add("Mapper", lambda *a, **k: vmstate(Mapper(*a, **k)), [()], dict(dxyz=(0, 1, 0), sf=(2, 1), bbox=((0, 0), (2, 1)), aspect=3, name="n", origin=(1, 2, 3), jitterrate=.6, uvz=.5),
        dxyz=(0., 0., 1.), sf=(1, 1), bbox=((0, 0), (1, 1)), aspect=None, name="mapper", origin=(0, 0, 0), jitterrate=1., uvz=0.)
    two_ = ViewMapper((1, 2, .5), 360, origin=(4, 5, 6))
    one = ViewMapper((1, 2, .5), 180, origin=(4, 5, 6))
    solid = SolidViewMapper((1, 2, .5), 180, origin=(4, 5, 6))
    persp = PerspectiveViewMapper((1, 2, .5), 60, 50, origin=(4, 5, 6))
    plane = Mapper((1, 2, .5), (2, 1.5), ((0, 0), (2, 1.5)), origin=(4, 5, 6))
    for n, m in (("view", one), ("two", two_), ("solid", solid), ("plane", plane)):
        add(f"{n}.uv2xyz", m.uv2xyz, [(GRID,)], dict(stackorigin=True), stackorigin=False)
        add(f"{n}.idx2uv", m.idx2uv, [(np.arange(12), (3, 4))], dict(jitter=False), jitter=True)
        add(f"{n}.pixels", m.pixels, [(4,)], dict(jitter=.4), jitter=0.)
        add(f"{n}.ray2pixel", m.ray2pixel, [(UNIT, 9)], dict(integer=False), integer=True)
        add(f"{n}.in_view", m.in_view, [(UNIT,)], dict(indices=False), indices=True)
    for n, m in (("view", one), ("two", two_), ("solid", solid), ("plane", plane), ("perspective", persp)):
        add(f"{n}.vxy2xyz", m.vxy2xyz, [(GRID,)], dict(stackorigin=True), stackorigin=False)
    add("view.in_view with tolerance", lambda v, **k: one.in_view(v, False, **k), [(one.view2world(cone(np.arange(80, 100, .5), 40)[:, [0, 2, 1]]),)], dict(tol=.02), tol=0.)
    add("view.solid_vxy2xyz", one.solid_vxy2xyz, [(GRID,)], dict(stackorigin=True), stackorigin=False)
    add("view.solid_pixelrays", one.solid_pixelrays, [(5,)], dict(jitter=.4), jitter=0.)
    add("view.solid_ray2pixel", one.solid_ray2pixel, [(UNIT, 9)], dict(integer=False), integer=True)
    add("plane.pixelrays", plane.pixelrays, [(5,)], dict(jitter=.4), jitter=0.)
    add("view.transform_to", lambda a, *p, **k: one.transform_to(a, solid, *p, **k), [(im,)], dict(nearest=True), nearest=False)
    for n, m in (("view", one), ("two", two_), ("solid", solid)):
        add(f"{n}.header", m.header, [()], dict(pt=(1, 2, 3), viewproj="vte"), pt=(0, 0, 0), viewproj="vta")
        init = lambda r: [x for i in r for x in (i if isinstance(i, tuple) else (i,))]
        add(f"{n}.init_img", lambda *p, m=m, **k: init(m.init_img(*p, **k)), [()], dict(res=64, pt=(1, 2, 3), features=3, viewproj="uv", indices=False), res=512, pt=(0, 0, 0), features=1, viewproj="vta", indices=True)
        base_img = lambda m=m: np.zeros((3, 9 * (2 if m is two_ else 1), 9))
        vs = UNIT if m is two_ else UNIT[m.in_view(UNIT, False)]
        for f in (0, 1):
            add(f"{n}.add_vecs_to_img {f}", lambda *p, m=m, b=base_img, vs=vs, f=f, **k: m.add_vecs_to_img(b() if f else b()[0], vs, *p, **k), [()], dict(channels=(2, 3, 4), grow=1, fisheye=False, mask=(np.arange(4), np.arange(4))), channels=(1, 0, 0), grow=0, fisheye=True, mask=None)
    add("plane.init_img", lambda *p, **k: init(plane.init_img(*p, **k)), [()], dict(res=64, jitter=.5), res=512, jitter=0.)
    add("plane.add_vecs_to_img", lambda *p, **k: plane.add_vecs_to_img(np.zeros((3, 9, 7)), plane.pixelrays(5).reshape(-1, 3), *p, **k), [()], dict(channels=(2, 3, 4), grow=1), channels=(1, 0, 0), grow=0)

    def plot(m):
        def go(*p, **k):
            with scratch() as root:
                m.plot(m.pixelrays(3).reshape(-1, 3)[:4], root + "/p.hdr", *p, **k)
                return stripped(listing(root)[0][1])
        return go
    add("view.plot", plot(one), [()], dict(res=64, grow=0), res=1000, grow=1)
    add("plane.plot", plot(plane), [()], dict(res=64, grow=0), res=1000, grow=1)
    # -------------------------------------------------------------- mapping
    pc = lambda *a, **k: utility.pool_call(*a, pbar=False, **k)
    add("pool_call", pc, [(task, [(1, 2), (3, 4)], 5)], dict(), cap=None, expandarg=True, desc="processing", workers=True, context="fork")
    add("pool_call of single arguments", lambda **k: utility.pool_call(single, [(1, 2), (3, 4)], 5, expandarg=False, pbar=False, **k), [()], dict(), cap=None, desc="processing", workers=True, context="fork")
    return t


def task(a, b, c):
    return a * 100 + b * 10 + c


def single(a, c):
    return sum(a) + c


RNG = np.random.default_rng
SLOW = ("imgmetric", "gss_compute", "gss_compute saving", "hdr_rotate", "hdr_rotate turned", "hdr_solid2ang", "plane.plot", "view.plot", "GSS", "find_peak", "normalize_peak")
NAMED = ("imgmetric of a dark image", "hdr_rotate turned")       # (called with other options of theirs given by name)
WHOLE = ("metricset", "header", "items", "lumrgb", "illums")


def result(fn, i, kw, pos=()):
    np.random.default_rng = lambda *a: RNG(*(a or (5,)))
    try:
        with np.errstate(all="ignore"):
            return fn(*i, *pos, **kw)
    finally:
        np.random.default_rng = RNG


def values(k, v):
    return v if isinstance(v, list) and k not in WHOLE else [v]


def positional(fn):
    """the function itself, or a wrapper that passes positions on"""
    if fn in (tr.simple_take, utility.pool_call):
        return False
    return getattr(fn, "__module__", "").startswith("raytools") or any(p.kind == p.VAR_POSITIONAL for p in inspect.signature(fn).parameters.values())


def g_omit(ctx, part, parts, most):
    for n, (name, fn, inputs, defaults, others) in enumerate(table()):
        if n % parts != part:
            continue
        keys = list(defaults)
        top = min(most, 1) if name in SLOW else most
        sets = {frozenset(c) for k in range(min(top, len(keys)) + 1) for c in itertools.combinations(keys, k)}
        sets |= {frozenset(keys) - s for s in sets}
        sets.discard(frozenset())
        full = [result(fn, i, defaults) for i in inputs]
        for s in sorted(sets, key=lambda s: (len(s), sorted(s))):
            def go():
                for j, (i, want) in enumerate(zip(inputs, full)):
                    check(equal(result(fn, i, {k: v for k, v in defaults.items() if k not in s}), want), f"{name} of input {j} without {sorted(s)} is not the call with the defaults")
            ctx.run([name, "without", sorted(s)], go)
            ctx.trans(len(inputs))
            ctx.state((name, tuple(sorted(s))))
        for p, k in enumerate(keys):
            for m, o in enumerate(values(k, others[k]) if k in others and k in defaults else []):
                def go():
                    moved = False
                    for j, (i, want) in enumerate(zip(inputs, full)):
                        named = result(fn, i, {**defaults, k: o})
                        moved |= not equal(named, want)
                        if positional(fn) and name not in NAMED:
                            try:
                                got = result(fn, i, {}, [defaults[q] for q in keys[:p]] + [o])
                            except Exception as e:
                                raise Violation(f"{name} with {k} given by position: {type(e).__name__}: {e}")
                            check(equal(got, named), f"{name} of input {j}: {k} given by position and by name differ")
                    if moved:
                        ctx.outcome((name, k, m))
                    elif os.environ.get("C48_SHOW"):
                        print("no effect", name, k, m, flush=True)
                ctx.run([name, "by position", k, m], go)
                ctx.trans(2 * len(inputs))


def groups(tier):
    q = tier == "quick"
    return [(f"omit {p}", g_omit, p, 16, 2 if q else 4) for p in range(16)]
