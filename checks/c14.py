"""Directions (integer lattice incl. poles and axes, and a theta/phi lattice incl. the wrap-around) are walked through every path of
up to 4 conversions between unit vectors, polar angles, altitude/azimuth and phi-shifted polar angles; pair predicates (angle, chord,
symmetry) are evaluated for every pair of lattice directions."""
import math

import numpy as np

from mc import ref
from mc.core import check, close
from mc.graph import explore
from raytools import translate as tr

RULE = ("one case per conversion path from the lattice, per lattice direction (fisheye coordinates, single/batch) and per "
        "direction row of the pair table; states are (coordinate system, direction)")
PI = math.pi


def dirset(r, extra=True):
    d = [ref.unit(k) for k in ref.lattice_dirs(r)]
    if extra:
        d += [ref.unit(k) for k in ((1e-5, 0, 1), (0, -1e-5, -1), (1e-5, 1e-5, -1), (-1e-4, 2e-5, 1),
                                    (1, 1e-7, 0), (1, -1e-7, 0), (-1, 1e-7, 0), (-1, -1e-7, 0))]
    return d


def ref_tp(d):
    th = math.atan2(math.hypot(d[0], d[1]), d[2])
    if math.hypot(d[0], d[1]) == 0:
        return th, PI
    ph = math.atan2(d[1], d[0]) % (2 * PI)
    return th, ph


def g_paths(ctx, r, maxlen):
    for part in ("general", "poles"):
        dirs = [d for d in dirset(r) if (math.hypot(d[0], d[1]) == 0) == (part == "poles")]
        xyz = np.array(dirs)
        tp = np.array([ref_tp(d) for d in dirs])
        # altitude from the horizon, azimuth measured so that aa2xyz(0, az)
        # points to (-sin az, ...) as documented by aa2xyz: phi = 3*pi/2 - az
        az = 270 - np.degrees(tp[:, 1])
        az = np.where(az > 180, az - 360, az)
        aa = np.stack((90 - np.degrees(tp[:, 0]), az)).T
        k = (np.arange(len(tp)) % 3 - 1) * 2 * PI
        tol = dict(xyz=1e-7, tp=1e-6, aa=1e-4, wrap=1e-6)
        nodes = dict(xyz=xyz, tp=tp, aa=aa, wrap=tp + k[:, None] * (0, 1))
        edges = [("xyz", "tp", "xyz2tp", tr.xyz2tp),
                 ("tp", "xyz", "tp2xyz", tr.tp2xyz),
                 ("tp", "xyz", "tp2xyz(raw)", lambda a: tr.tp2xyz(a, normalize=False)),
                 ("xyz", "aa", "xyz2aa", tr.xyz2aa),
                 ("aa", "xyz", "aa2xyz", tr.aa2xyz),
                 ("tp", "wrap", "add turns", lambda a: a + k[:, None] * (0, 1)),
                 ("wrap", "xyz", "tp2xyz(wrapped)", tr.tp2xyz),
                 ("wrap", "xyz", "tp2xyz(raw,wrapped)", lambda a: tr.tp2xyz(a, normalize=False))]
        # exactly on the seam phi = 0 rounding may come back as 2 pi: the
        # lattice directions there go through as exact zeros
        seam = np.abs(aa[:, 1] + 90) < 1e-6

        def fixed(f, dst):
            def g(a):
                o = np.array(f(a))
                if dst == "tp":
                    check((o >= 0) & (o[:, 0:1] <= PI) & (o[:, 1:2] < 2 * PI), "polar angles out of range")
                    o[:, 1] = np.where((np.abs(o[:, 1] - 2 * PI) < 1e-6) & (tp[:, 1] < 1e-5),
                                       o[:, 1] - 2 * PI, o[:, 1])
                if dst == "aa":
                    check((np.abs(o[:, 0]) <= 90 + 1e-9) & (np.abs(o[:, 1]) <= 180 + 1e-9),
                          "altitude/azimuth out of range")
                    d = o[:, 1] - az
                    o[:, 1] = np.where(np.abs(np.abs(d) - 360) < 1e-3, az, o[:, 1])
                return o
            return g
        edges = [(s, d, l, fixed(f, d)) for s, d, l, f in edges]
        for start in nodes:
            explore(ctx, [part, start], nodes, edges, start, maxlen, tol)
        # the normalized form is a fixed point
        ctx.run([part, "tpnorm"], lambda: close(tr.tpnorm(tp.copy()), np.where(
            np.arange(2) == 1, np.mod(tp, 2 * PI), tp), atol=1e-9, msg="tpnorm moved normalized angles"))


def g_single(ctx, r):
    dirs = dirset(r)
    allxyz = np.array(dirs)
    batch = {f.__name__: f(allxyz) for f in (tr.xyz2tp, tr.xyz2aa, tr.xyz2xy)}
    for i, d in enumerate(dirs):
        def go():
            for f in (tr.xyz2tp, tr.xyz2aa, tr.xyz2xy):
                close(f(d), batch[f.__name__][i:i + 1], atol=1e-12, msg=f"{f.__name__} single/batch")
            tp = ref_tp(d)
            close(tr.tp2xyz(tp), [d], atol=1e-7, msg="tp2xyz of a flat point")
            # fisheye
            s = math.hypot(d[0], d[1])
            rad = tp[0] / (PI / 2)
            e = (0, 0) if s == 0 else (rad * d[0] / s, rad * d[1] / s)
            got = tr.xyz2xy(d)
            if s == 0:
                close(np.hypot(*np.ravel(got)), rad, atol=1e-9, msg="fisheye radius at the pole")
            else:
                close(got, [e], atol=1e-9, msg="fisheye coordinates")
                close(tr.xyz2xy(d, flip=True), [(-e[0], e[1])], atol=1e-9, msg="flipped fisheye")
            for axes in ((0, 1, 2), (1, 2, 0), (2, 0, 1), (0, 2, 1), (2, 1, 0), (1, 0, 2)):
                p = [0, 0, 0]
                for q in range(3):
                    p[axes[q]] = d[q]
                close(tr.xyz2xy(p, axes=axes), got, atol=1e-9, msg="fisheye axes")
        ctx.run(["dir", i, d], go)
    for e in range(4, 13):
        for k in ((1, 0), (0, -1), (-1, 1), (2, 1)):
            for up in (1, -1):
                def near():
                    d = ref.unit((k[0] * 10**-e, k[1] * 10**-e, up))
                    s = math.hypot(d[0], d[1])
                    rad = math.atan2(s, d[2]) / (PI / 2)
                    close(tr.xyz2xy(d), [(rad * d[0] / s, rad * d[1] / s)], atol=1e-9, msg="fisheye coordinates near the axis")
                    th = tr.xyz2tp(d)[0, 0]
                    close(th, rad * PI / 2, atol=3e-8, msg="polar angle near the axis")
                ctx.run(["near", e, k, up], near)
    for i, d in enumerate(dirs):
        ctx.state(("single", i))
        ctx.trans(12)


def g_pairs(ctx, r):
    dirs = dirset(r)
    b = np.array(dirs)
    for i, a in enumerate(dirs):
        def go():
            exp = np.array([ref.angle(a, q) for q in dirs])
            got = tr.radians(a, b)
            check(np.isfinite(got), "angle not finite")
            close(got, exp, atol=2e-7, msg="radians")
            close(tr.degrees(a, b), np.degrees(exp), atol=2e-6, msg="degrees")
            close(tr.ctheta(a, b), np.cos(exp), atol=1e-12, msg="cosine")
            check(np.abs(tr.ctheta(a, b)) <= 1, "cosine out of range")
            ch = np.array([math.dist(a, q) for q in dirs])
            close(tr.theta2chord(exp), ch, atol=1e-9, msg="theta2chord")
            close(tr.chord2theta(np.minimum(ch, 2)), exp, atol=2e-7, msg="chord2theta")
            close(tr.radians(a, np.negative(b)), PI - exp, atol=2e-7, msg="angle to the opposite direction")
            for j in (0, i, len(dirs) // 2, (i * 7) % len(dirs)):
                close(tr.radians(b[j], a), [exp[j]], atol=2e-7, msg="angle symmetric, single")
            check(((got < 3e-7) == (np.arange(len(dirs)) == i)) | ((exp > 0) & (exp < 1e-4)), "zero only for equal directions")
        ctx.run(["pairs", i, a], go)
        ctx.state(("pair", i))
        ctx.trans(6 * len(dirs))
        ctx.trace(len(dirs))


def g_lattice(ctx, n, m):
    """theta/phi lattice incl. both ends"""
    th = np.linspace(0, PI, n)
    ph = np.arange(-m, 2 * m) / m * 2 * PI
    for i, t in enumerate(th):
        def go():
            tp = np.stack((np.full(len(ph), t), ph)).T
            xyz = tr.tp2xyz(tp.copy())
            e = np.stack((np.sin(t) * np.cos(ph), np.sin(t) * np.sin(ph), np.full(len(ph), np.cos(t)))).T
            close(xyz, e, atol=1e-9, msg="tp2xyz")
            back = tr.xyz2tp(xyz)
            close(back[:, 0], np.full(len(ph), t), atol=1e-7, msg="theta")
            if 0 < i < n - 1:
                d = np.mod(back[:, 1] - ph + PI, 2 * PI) - PI
                close(d, np.zeros(len(ph)), atol=1e-7, msg="phi")
            alt, azi = 90 - np.degrees(t), np.linspace(-180, 180, 2 * m + 1)
            aa = np.stack((np.full(len(azi), alt), azi)).T
            v = tr.aa2xyz(aa)
            p = np.radians(270 - azi)
            close(v, np.stack((np.sin(t) * np.cos(p), np.sin(t) * np.sin(p), np.full(len(p), np.cos(t)))).T,
                  atol=1e-9, msg="aa2xyz")
            if 0 < i < n - 1:
                r = tr.xyz2aa(v)
                close(r[:, 0], aa[:, 0], atol=1e-5, msg="altitude")
                close(np.mod(r[:, 1] - azi + 180, 360) - 180, np.zeros(len(azi)), atol=1e-5, msg="azimuth")
                check(np.abs(r[:, 1]) <= 180 + 1e-9, "azimuth out of range")
        ctx.run(["theta", i], go)
        ctx.addstates(len(ph))
        ctx.trans(4 * len(ph))
        ctx.trace(len(ph))


def g_tiny(ctx, step):
    """chords and angles over all magnitudes keep their relative accuracy"""
    for e in np.arange(-12, .3, step):
        def go():
            t = 10. ** e
            c = 2 * math.sin(t / 2)
            close(tr.theta2chord(t), c, 0, 1e-12, "theta2chord")
            close(tr.chord2theta(c), t, 0, 1e-12 if t < 1 else 1e-9, "chord2theta")
            a = np.array([t, t / 3, 0.])
            close(tr.chord2theta(tr.theta2chord(a)), a, 0, 1e-11, "array of angles")
            check(tr.chord2theta(0.) == 0 and tr.theta2chord(0.) == 0, "zero")
        ctx.run(["tiny", float(e)], go)


def groups(tier):
    q = tier == "quick"
    return [("paths", g_paths, 3 if q else 5, 4 if q else 5),
            ("single", g_single, 3 if q else 5), ("pairs", g_pairs, 3 if q else 5),
            ("tiny", g_tiny, .25 if q else .02), ("lattice", g_lattice, 19 if q else 181, 24 if q else 360)]
