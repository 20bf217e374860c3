"""Pairs of operations on independent inputs run in two real threads under the line-level scheduler of `mc/interleave.py`: a trace function makes every
source line executed inside the library a scheduling point (every bytecode in one thorough tier), one thread runs at a time, and every schedule with one
preemption (either thread first, preempted after each of its steps) is executed; the thorough tier adds every schedule with two preemptions of an
operation against itself, on a grid of all first and second preemption points. Each schedule runs in its own forked process so that caches are as cold
as at import; a second family runs in processes where both operations ran before (warm caches). The oracle is each operation run alone in
its own process. Operations cover every module (quick: every fourth preemption point for the two slow ones, GSS and files; cross pairs warm only); each exists in two variants with different inputs, sizes and options, and is paired with
its own other variant and with operations sharing classes or module state with it (all pairs in the thorough tier). Interleavings inside numpy, and switches
in the middle of a line (except in the bytecode tier), are not explored; the scheduler gives up control (and the schedule counts as free-running) when the
running thread blocks on a lock the other holds."""
import itertools
import os
import tempfile

import numpy as np

from mc import interleave as il
from mc.core import check, fail

RULE = "one case per (pair of operations, warm/cold caches, schedule); trivial when the preempted thread has no step left"

W = {}


def dirs(v, n=None):
    n = n or 7 + 2 * v
    i = np.arange(n) + 1. + 3 * v
    return np.stack((np.sin(1.3 * i), np.cos(2.1 * i), np.sin(.7 * i + v)), 1)


def unitd(v, n=None):
    d = dirs(v, n)
    return d / np.linalg.norm(d, axis=1)[:, None]


def rays(v, n=None):
    d = unitd(v, n)
    n = len(d)
    d[:, 1] = np.abs(d[:, 1]) + .2
    d /= np.linalg.norm(d, axis=1)[:, None]
    return d, .01 * (np.arange(n) + 1 + v), 5. * ((np.arange(n) * (3 + v)) % 5 + 1) ** 3


def op_conv(v):
    from raytools import translate as tr

    def f():
        d = unitd(v)
        uv = tr.xyz2uv(d, flipu=bool(v))
        return (uv, tr.uv2xyz(uv, xsign=1 - 2 * v), tr.xyz2tp(d), tr.tp2xyz(tr.xyz2tp(d)), tr.xyz2aa(d),
                tr.aa2xyz(tr.xyz2aa(d)), tr.uv2bin(uv, 5 + v), tr.bin2uv(np.arange(6), 5 + v), tr.xyz2skybin(d, 3 + v),
                tr.xyz2xy(d, flip=bool(v)), tr.degrees(d[0], d))
    return f


def op_rot(v):
    from raytools import translate as tr

    def f():
        d = unitd(v)
        return (tr.rmtx_yp(d[0]), tr.rmtx_yp(d), tr.rotate_elem(d, 30 + v, v), tr.reflect(d[:1], d[1:3]),
                tr.cull_vectors(d, .2 + .1 * v))
    return f


def op_stat(v):
    from raytools import translate as tr

    def f():
        x = np.array([3., 1, 2, 7, 5, 4][v:])
        return (tr.weighted_quantile(x, np.arange(len(x)) + 1., np.array([.1, .5, .8])), tr.weighted_quantile(x[::-1], np.ones(len(x)), .3),
                tr.non_uniform_gaussian_filter(np.sort(x), x * (v + 1), .5 + v),
                tr.resample(x, (len(x) * 3,)), tr.simple_take(np.arange(12).reshape(3, 4), [v, 2], None))
    return f


def op_view(v):
    from raytools.mapper import ViewMapper

    def f():
        vm = ViewMapper(((.3, .4, .1), (-.5, .2, .6))[v], (360, 153)[v])
        p = vm.pixelrays(3 + v)
        return (p, vm.ray2pixel(p[:2 + v].reshape(-1, 3), 3 + v), vm.xyz2uv(unitd(v)), vm.uv2xyz([[.3, .4]]),
                vm.in_view(unitd(v), False), vm.pixel2omega(vm.pixels(2), 2), vm.header(), vm.area, vm.idx2uv([1, 2], (2, 2), False))
    return f


def op_solid(v):
    from raytools.mapper import SolidViewMapper

    def f():
        vm = SolidViewMapper(((.3, .4, .1), (-.5, .2, .6))[v], (180, 120)[v])
        p = vm.pixelrays(3 + v)
        vm.dxyz = (v, 1, -v)
        q = vm.ray2pixel(vm.pixelrays(4).reshape(-1, 3), 4)
        return p, q, vm.init_img(3 + v)[1:4], vm.ctheta(unitd(v))
    return f


def op_plane(v):
    from raytools.mapper import Mapper

    def f():
        m = Mapper(sf=(1 + v, 2), bbox=((0, 0), (1 + v, 2)))
        r = m.framesize(4)
        m.aspect = .5 + v
        p = m.pixels(4)
        u = m.idx2uv(np.arange(6), (2, 3), False)
        return r, m.framesize(4), p, u, m.uv2xyz(u), m.xyz2uv(m.uv2xyz(u)), m.add_vecs_to_img(np.zeros((4, 4)), m.uv2xyz(u))
    return f


def op_draw(v):
    from raytools.mapper import ViewMapper

    def f():
        vm = ViewMapper(((.3, .4, .1), (-.5, .2, .6))[v], (360, 180)[v])
        img, vec, m, m2, h = vm.init_img(4 + v, features=1 + 2 * v)
        return vm.add_vecs_to_img(img, unitd(v)[:3], (1, 2, 3), grow=v), vec, m, h
    return f


def metric(cls, v, names, **kw):
    from raytools import evaluate
    from raytools.mapper import ViewMapper

    def f():
        d, o, l = rays(v)
        if "Color" in cls:
            l = l[:, None] * np.array([[.5, 1, 2]])
        vm = ViewMapper(((0, 1, 0), (.1, 1, .1))[v], viewangle=180)
        ms = getattr(evaluate, cls)(d, o, l, vm, names, **kw)
        return ms(), ms(names[::-1]), ms.vec, ms.omega
    return f


def op_base(v):
    from raytools.mapper import ViewMapper
    from raytools.evaluate import BaseMetricSet

    def f():
        d, o, l = rays(v)
        d[0] = (1, -.01, 0)
        l[0] *= 50000
        o[0] = .05
        ms = BaseMetricSet(d, o, l, ViewMapper((0, 1, v), viewangle=180),
                           ["illum", "gcr", "pwgcr", "logpwgcr", "pwavglum", "density"][v:])
        return ms(), ms.omega, ms.vec
    return f


def op_metric(v):
    return metric("MetricSet", v, [["ugr", "dgp", "ugp", "backlum", "tasklum", "pwsl2"],
                                   ["dgp", "maxlum", "threshold", "srcarea", "illum", "backlum_true"]][v], threshold=(2000, 5.)[v])


def op_color(v):
    return metric("ColorMetricSet", v, [["irradiance", "dgp", "illum"], ["illum", "ugp", "irradiance", "srcillum"]][v])


def op_pos(v):
    from raytools.evaluate import PositionIndex
    from raytools.mapper import ViewMapper

    def f():
        return (PositionIndex(not v).positions(ViewMapper((.2, 1, v), 180), unitd(v)),
                PositionIndex(bool(v)).positions_vec((0, 1, .1), unitd(1 - v)))
    return f


def op_peak(v):
    from raytools import imagetools as it

    def f():
        d, o, l = rays(v)
        d[1] = d[0] + (.001, 0, 0)
        o[:2] = 3e-5 * (1 + v)
        l[:2] = 2e6, 1.5e6
        return it.normalize_peak(d, o, l, blursun=bool(v), peakr=2 + v), it.normalize_peak(d, o, l, returnparts=True)
    return f


def op_image(v):
    from raytools import imagetools as it

    def f():
        a = np.arange((5. - v) ** 2).reshape(5 - v, 5 - v) * (1 + v)
        return (it.array_uv2ang(a), it.array_ang2uv(a), it.array_rotate(a, 90 + v, center=(2, 1 + v)),
                it.array_solid2ang(a, reverse=bool(v), nearest=True, returnvm=False))
    return f


def op_head(v):
    from raytools import io

    def f():
        h = [["a.hdr:", "\tVIEW= -vta -vd 0 1 0", "\tpfilt -x 3 -y 4 " + "word " * 30, "\tFOO= 1", "\tFOO= 1"],
             ["b.hdr:", "\tc.hdr:", "\t\tX= 2", "\t\tVIEW= -vtv", "\tY= 3", "\tVIEW= -vth"]][v]
        return (io.CleanHeader(h).header if hasattr(io, "CleanHeader") else io.clean_header(h), io.clean_header(h),
                io.rgbe2lum(np.arange(16, dtype=np.uint8).reshape(4, 4) + 120 * v), io.rgb2lum(dirs(v)),
                io.bytes2np(io.np2bytes(dirs(v)), dirs(v).shape))
    return f


def op_retina(v):
    from raytools.evaluate import retina

    def f():
        xy = unitd(v)[:, :2] * .9
        return (retina.rgcf_density(xy), retina.rgc_density(xy), retina.blur_sun(6e-5 * (1 + v), 1e5), retina.inv_hpsf(.3, .2 + v))
    return f


def op_file(v):
    from raytools import io, imagetools as it

    def f():
        p = os.path.join(W["dir"], f"img{v}.hdr")
        out = os.path.join(W["dir"], f"o{os.getpid()}_{v}.hdr")
        a, h = io.hdr2array(p), io.hdr_header(p)
        (io.array2hdr, io.carray2hdr)[v](np.stack([a] * 3) if v else a, out, [f"line {v}"], clean=bool(v))
        b = io.hdr2carray(out)
        h2 = io.hdr_header(out)
        os.remove(out)
        return a, h[-3:-1], b, [i for i in h2 if "line" in i], it.imgmetric(p, ["illum", "dgp"])
    return f


def op_gss(v):
    from raytools.evaluate.hvsgsm import GSS
    p = os.path.join(W["dir"], f"img{v}.hdr")

    def f():
        g = GSS(age=30 + 20 * v, psf=bool(v))
        g.lum = p
        s = g.compute()
        return s, g.ecc, g.sigma_c
    return f


def op_pool(v):
    from raytools import utility

    def f():
        return utility.pool_call(np.add, [(i, v) for i in range(3)], expandarg=True, cap=1 + v, pbar=False)
    return f


OPS = dict(conv=op_conv, rot=op_rot, stat=op_stat, view=op_view, solid=op_solid, plane=op_plane, draw=op_draw, base=op_base,
           metric=op_metric, color=op_color, pos=op_pos, peak=op_peak, image=op_image, head=op_head, retina=op_retina,
           file=op_file, gss=op_gss)
SLOW = {"file", "gss"}
CROSS = [("view", "solid"), ("view", "draw"), ("metric", "color"), ("metric", "base"), ("metric", "pos"), ("conv", "view"),
         ("rot", "view"), ("image", "solid"), ("plane", "draw"), ("peak", "retina"), ("color", "base"), ("conv", "rot")]


def makefiles():
    from raytools import io
    from raytools.mapper import ViewMapper
    W["dir"] = tempfile.mkdtemp(prefix="rtmc_c10_")
    for v in (0, 1):
        n = 8 + 4 * v
        a = np.arange(n * n).reshape(n, n) % 7 + 1. + 3000 * (np.arange(n * n).reshape(n, n) == 3 * n + 4)
        io.array2hdr(a, os.path.join(W["dir"], f"img{v}.hdr"), [ViewMapper((0, 1, v), viewangle=180).header()])


def rm():
    import shutil
    shutil.rmtree(W["dir"], ignore_errors=True)


def g_pair(ctx, a, b, mode, opcodes=False, stride=1):
    makefiles()
    try:
        names = [(a, 0), (b, 1)]

        def mk(n, v):
            return lambda: OPS[n](v)
        makers = [mk(*n) for n in names]
        refs, cnt = [], []
        for m in makers:
            r, s = il.execute([m], [], opcodes, True)
            if r[0][0] != "ok":
                raise RuntimeError(f"the operation fails alone: {r}")
            refs.append(r[0][1])
            cnt.append(s[0])

        def verdict(res):
            for (n, v), r, ref in zip(names, res, refs):
                if r[0] != "ok":
                    return f"{n}{v} failed: {r[1]} {r[2]}"
                if not il.equal(r[1], ref):
                    return f"{n}{v} returned another result than when run alone"

        def one(plan):
            res, steps = il.execute(makers, plan, opcodes)
            ctx.trans(sum(cnt))
            ctx.trace()
            m = verdict(res)
            if m:
                fail(m)

        def chunk(plans):
            """warm schedules, one after the other in one process"""
            for m in makers:
                m()()
            return [verdict(il.Run([m() for m in makers], p, opcodes).go()[0]) for p in plans]

        def report(m):
            ctx.trans(sum(cnt))
            ctx.trace()
            if m:
                fail(m)

        if mode == "two":
            for first in (0, 1):
                for k in range(1, cnt[first], stride):
                    for j in range(1, cnt[1 - first], stride):
                        ctx.run([first, k, j, "cold"], one, [(first, k), (1 - first, j), (first, None)])
                        ctx.state((first, k, j))
            return
        plans = [(first, k) for first in (0, 1) for k in range(first, cnt[first] + 1, stride)]
        if "cold" in mode:
            for first, k in plans:
                ctx.run([first, k, "cold"], one, [(first, k), (1 - first, None)])
                ctx.state(("cold", first, k))
        if "warm" in mode:
            for i in range(0, len(plans), 40):
                part = plans[i:i + 40]
                if ctx.only is not None and not any(f'[{f}, {k}, "warm"]' == ctx.only for f, k in part):
                    continue
                out = il.isolated(lambda: chunk([[(f, k), (1 - f, None)] for f, k in part]))
                for (f, k), m in zip(part, out):
                    ctx.run([f, k, "warm"], report, m)
                    ctx.state(("warm", f, k))
    finally:
        rm()


def groups(tier):
    q = tier == "quick"
    g = []
    for n in OPS:
        g.append((f"{n}+{n}", g_pair, n, n, "cold warm", False, 4 if n in SLOW and q else 1))
    for a, b in CROSS if q else itertools.combinations(OPS, 2):
        g.append((f"{a}+{b}", g_pair, a, b, "warm" if q or {a, b} & SLOW else "cold warm"))
    if not q:
        for n in OPS:
            if n not in SLOW:
                g.append((f"two {n}", g_pair, n, n, "two", False, 5))
                g.append((f"opcodes {n}", g_pair, n, n, "cold warm", True))
    g.sort(key=lambda x: not any(i in x[0] for i in ("image+image", "gss", "file")))
    return g
