"""Row-wise conversions: the result for a row does not depend on the other rows of the batch, on their number or order, nor on how the batch is stored.
For every conversion every ordered pair of rows (thorough: every ordered triple), the whole set in every rotation and reversed, a repetition to 20011 rows, every memory layout, and every
position of a row that has no result (NaN, infinite, zero) are compared with the rows converted one by one; the batch given is never changed."""
import itertools
import warnings

import numpy as np

from mc.core import Violation, check
from raytools import io, translate as tr
from raytools.evaluate import PositionIndex, hvsgsm, retina
from raytools.mapper import Mapper, SolidViewMapper, ViewMapper
from raytools.mapper.perspectiveviewmapper import PerspectiveViewMapper

RULE = "one case per (conversion, form of the batch); trivial where the rows of the set all give the same result"


def fan(n, r=1.):
    """directions in general position, all octants"""
    i = np.arange(n)
    z = 1 - (2 * i + 1.07) / (n + .31)
    a = i * 2.39996323 + .217
    s = np.sqrt(1 - z * z)
    return np.stack((s * np.cos(a), s * np.sin(a), z)).T * r


UNIT = fan(17)
LONG = UNIT * (.3 + np.arange(17) % 5 * .9)[:, None]
FAR = UNIT * np.geomspace(1e-6, 1e7, 17)[np.arange(17) * 5 % 17][:, None]
UV = np.stack((np.mod(np.arange(19) * .61803 + .013, 1), np.mod(np.arange(19) * .414213 + .027, 1))).T
UV2 = UV * (2, 1)
TPR = np.stack((UV[:, 0] * np.pi, UV[:, 1] * 2 * np.pi)).T
INTS = np.array([(x, y, z) for x in (-2, 0, 3) for y in (-1, 0, 2) for z in (-3, 1, 2)], float)
RGB = np.abs(LONG) * 40
RGBE = np.array([(0, 0, 0, 0), (1, 2, 3, 128), (255, 0, 9, 130), (17, 200, 90, 120), (128, 129, 127, 255), (4, 4, 4, 1), (0, 77, 0, 136)])
POLES = np.array([(0., 0, 1), (0, 0, -1), (0, 1, 0), (1, 0, 0), (0, -1, 0), (-1, 0, 0)])


def cols(*a):
    """several results of a row side by side"""
    return np.concatenate([np.asarray(i, float).reshape(len(i), int(np.prod(np.shape(i)[1:]))) for i in a], 1)


def table():
    """(name, conversion of a batch, rows, properties). Properties: seq (lists and tuples are taken), one (a single row may be given on its own), none (an empty batch is taken),
    grid (batches with more axes are taken), f4 (relative precision in single precision, None: not asked), bad (rows without a result), ints (rows of integers)"""
    t = []
    nan3, inf3, zero3 = (np.nan,) * 3, (np.inf, 1., 0), (0., 0, 0)
    nan2, inf2 = (np.nan,) * 2, (np.inf, -np.inf)

    def add(name, fn, rows, props="seq one none", f4=2e-5, bad=(), ints=None, shape=None):
        t.append((name, fn, np.array(rows, float), props.split(), f4, bad, ints))
    # ------------------------------------------------------------ translate
    add("norm", tr.norm, FAR, "none", bad=(nan3, zero3), ints=INTS[INTS.any(1)])
    add("uv2xy", tr.uv2xy, UV, bad=(nan2, inf2), ints=[(0, 0), (0, 1), (1, 0), (1, 1)])
    for ax in itertools.permutations(range(3)):
        add(f"uv2xyz {ax}", lambda a, ax=ax: tr.uv2xyz(a, axes=ax), UV2, bad=(nan2,), ints=[(0, 0), (0, 1), (1, 0), (2, 1), (2, 0)])
        add(f"xyz2uv {ax}", lambda a, ax=ax: tr.xyz2uv(a, axes=ax, flipu=ax[0] == 1), UNIT, bad=(nan3, zero3))
        add(f"xyz2xy {ax}", lambda a, ax=ax: tr.xyz2xy(a, axes=ax, flip=ax[0] == 2), FAR, bad=(nan3, zero3), ints=INTS)
    add("xyz2uv normalize", lambda a: tr.xyz2uv(a, normalize=True), FAR, bad=(nan3, zero3), ints=INTS[INTS.any(1)])
    add("xyz2skybin", lambda a: tr.xyz2skybin(a, 7, normalize=True), FAR, bad=(nan3,))
    add("skybin2xyz", lambda a: tr.skybin2xyz(a, 5), np.arange(26.), "one0 none", ints=np.arange(26))
    add("tpnorm", tr.tpnorm, TPR * 1.7 - 2, bad=(nan2,), ints=INTS[:, :2])
    add("tp2xyz", tr.tp2xyz, TPR, bad=(nan2,), ints=INTS[:, :2])
    add("tp2xyz plain", lambda a: tr.tp2xyz(a, normalize=False), TPR, bad=(nan2,), ints=INTS[:, :2])
    add("xyz2tp", tr.xyz2tp, np.concatenate((UNIT, POLES)), bad=(nan3,), f4=None)
    add("xyz2aa", tr.xyz2aa, np.concatenate((UNIT, POLES)), bad=(nan3,), f4=None)
    add("aa2xyz", tr.aa2xyz, TPR * 28 - (44, 88), bad=(nan2,), ints=INTS[:, :2] * 20)
    add("chord2theta", tr.chord2theta, UV[:, 0] * 1.9, "one0 none", bad=(np.nan, 3.))
    add("theta2chord", tr.theta2chord, UV[:, 0] * 3.1, "one0 none", bad=(np.nan,), ints=[0, 1, 2, 3])
    ax = tr.norm1((.2, -.7, .4))
    add("ctheta", lambda a: tr.ctheta(ax, a), UNIT, "seq one none grid", bad=(nan3, zero3), ints=INTS)
    add("radians", lambda a: tr.radians(ax, a), UNIT, "seq one none grid", bad=(nan3, zero3))
    add("degrees", lambda a: tr.degrees(ax, a), UNIT, "seq one none grid", f4=2e-4, bad=(nan3, zero3))
    add("uv2ij", lambda a: tr.uv2ij(a, 7), UV2, bad=(nan2,), ints=[(0, 0), (1, 0)])
    add("uv2bin", lambda a: tr.uv2bin(a, 7), UV2, bad=(nan2,), ints=[(0, 0), (1, 0)])
    add("bin2uv", lambda a: tr.bin2uv(a, 7), np.arange(98.), "one0 none", bad=(np.nan,), ints=np.arange(98))
    for k in range(3):
        add(f"rotate_elem {k}", lambda a, k=k: tr.rotate_elem(a, 31. + 50 * k, axis=k), LONG, "seq none", bad=(nan3, zero3), ints=INTS)
    add("rmtx_yp", lambda a: cols(*tr.rmtx_yp(a, keepdims=True)), np.concatenate((FAR, POLES * 2)), "seq one none", f4=None, bad=(nan3,), ints=INTS[INTS.any(1)])
    # (what several rows give for one normal and one row for several normals)
    add("reflect of rays", lambda a: cols(np.reshape(tr.reflect(a, ax[None])[0], (-1, 3))), UNIT, "none", bad=(nan3,), ints=INTS)
    add("reflect by normals", lambda a: cols(np.reshape(tr.reflect(ax[None], a)[0], (-1, 3))), UNIT, "none", bad=(nan3,), ints=INTS)
    add("weighted_quantile over q", lambda q: tr.weighted_quantile([3., 1, 4, 1, 5, 9, 2, 6], np.arange(8.) % 3 + .5, q), UV[:, 0], "seq one0 none", f4=1e-5)
    add("quantile over q", lambda q: tr.weighted_quantile([3., 1, 4, 1, 5, 9, 2, 6], None, q), UV[:, 0], "seq one0 none", f4=1e-5)
    x = np.cumsum(.5 + np.arange(60) * 7 % 5 / 4.)
    y = x * (1 + .2 * np.sin(x / 3))
    add("non_uniform_gaussian_filter over xr", lambda xr: tr.non_uniform_gaussian_filter(x, y, xr, 2.), np.sort(UV[:, 0] * 70 + 1), "seq sorted", f4=None)
    # ---------------------------------------------------------------- files
    add("rgb2rad", io.rgb2rad, RGB, "seq one none grid bytes", bad=(nan3,), ints=np.abs(INTS) * 80)
    add("rgb2lum", io.rgb2lum, RGB, "seq one none grid bytes", bad=(nan3,), ints=np.abs(INTS) * 80)
    add("rgbe2lum", io.rgbe2lum, RGBE, "none bytes", f4=None, bad=((0, 0, 0, 255.),), ints=RGBE)
    # -------------------------------------------------------------- mappers
    maps = [("half", ViewMapper((.3, .8, -.2), 180)), ("full", ViewMapper((.3, .8, -.2), 360)), ("narrow", ViewMapper((-.5, .1, .6), 60)), ("up", ViewMapper((0, 0, 1), 100)),
            ("solid", SolidViewMapper((.3, .8, -.2), 180)), ("perspective", PerspectiveViewMapper((.1, -.9, .3), 80, 50)),
            ("planar", Mapper(sf=(3, 2), bbox=((-1, -.5), (2, 1.5)), aspect=1.5))]
    for n, m in maps:
        plan = n == "planar"
        near = UNIT[(UNIT @ m.dxyz) > np.cos(np.radians(85 if n in ("half", "solid") else 55))] if n not in ("full", "planar") else UNIT
        near = near if len(near) > 4 else tr.norm(m.dxyz + .5 * UNIT)
        unit = near if n in ("solid", "perspective") else UNIT
        arr = "none grid" if plan else "seq one none"
        add(f"{n} world2view", m.world2view, LONG, bad=(zero3,), ints=INTS)
        add(f"{n} view2world", m.view2world, LONG, bad=(zero3,), ints=INTS)
        add(f"{n} xyz2uv", m.xyz2uv, unit, arr, bad=(nan3,))
        add(f"{n} uv2xyz", m.uv2xyz, UV, "seq one none", bad=(nan2,), ints=[(0, 0), (1, 0), (1, 1)])
        add(f"{n} uv2xyz with origin", lambda a, m=m: m.uv2xyz(a, stackorigin=True), UV, "seq one none", bad=(nan2,))
        add(f"{n} xyz2vxy", m.xyz2vxy, unit, arr, f4=1e-4, bad=(nan3,))
        add(f"{n} vxy2xyz", m.vxy2xyz, UV, "seq one none grid" if not plan else "seq one none", bad=(nan2,), ints=[(0, 0), (1, 0), (1, 1)])
        add(f"{n} ray2pixel", lambda a, m=m: m.ray2pixel(a, 30), unit, arr, bad=(nan3,))
        add(f"{n} ray2pixel exact", lambda a, m=m: m.ray2pixel(a, 30, integer=False), unit, arr, f4=1e-4, bad=(nan3,))
        add(f"{n} pixel2ray", lambda a, m=m: m.pixel2ray(a, 30), UV * 30, "none" if plan else "none grid", bad=(nan2,), ints=np.floor(UV * 30) + .0)
        add(f"{n} pixel2omega", lambda a, m=m: m.pixel2omega(a, 30), UV * 30, "none", f4=None, bad=(nan2,), ints=np.floor(UV * 30))
        add(f"{n} in_view", lambda a, m=m: m.in_view(a, indices=False), UNIT, "none", bad=(nan3,), ints=None)
        add(f"{n} in_view indices", lambda a, m=m: np.isin(np.arange(len(a)), m.in_view(a)[0]), UNIT, "none", bad=(nan3,))
        # (nested too: the flat index of a coordinate)
        add(f"{n} uv2idx", lambda a, m=m: m.uv2idx(a, (7, 5)), UV, "none", bad=(nan2,), ints=[(0, 0)])
        add(f"{n} idx2uv", lambda a, m=m: m.idx2uv(a.astype(int), (8, 4), jitter=False), np.arange(32.), "none", ints=np.arange(32))
        if not plan:
            for f in ("ctheta", "radians", "degrees"):
                add(f"{n} {f}", getattr(m, f), unit, "seq one none grid", f4=5e-4, bad=(nan3, zero3))
            add(f"{n} in_view tolerance", lambda a, m=m: m.in_view(a, indices=False, tol=.2), UNIT, "none", bad=(nan3,))
        if n in ("half", "narrow", "up"):
            add(f"{n} solid_xyz2vxy", m.solid_xyz2vxy, near, f4=1e-4, bad=(nan3,))
            add(f"{n} solid_vxy2xyz", m.solid_vxy2xyz, UV, "seq one none grid", bad=(nan2,), ints=[(0, 0), (1, 0), (1, 1)])
            add(f"{n} solid_ray2pixel", lambda a, m=m: m.solid_ray2pixel(a, 30), near, bad=(nan3,))
            add(f"{n} solid_pixel2ray", lambda a, m=m: m.solid_pixel2ray(a, 30), UV * 30, "none grid", bad=(nan2,), ints=np.floor(UV * 30))
    # ----------------------------------------------------------- evaluation
    for g in (True, False):
        for n, m in maps[:1] + maps[3:4]:
            add(f"position index {g} {n}", lambda a, g=g, m=m: PositionIndex(g).positions(m, a), FAR, "none", f4=None, bad=(nan3, zero3), ints=None)
        add(f"position index {g} of vectors", lambda a, g=g: PositionIndex(g).positions_vec((.3, .8, -.2), a), LONG, "none", f4=None, bad=(nan3, zero3))
    disk = (UV - .5) * 1.3
    for f in (retina.rgcf_density, retina.rgc_density):
        add(f.__name__, f, np.concatenate((disk, [(0, 0), (0, .5), (.5, 0), (-.3, 0), (0, -.4)])), "none", f4=1e-4, bad=(nan2,), ints=[(0, 0), (1, 0), (0, -1), (-1, 0)])
    for f in (retina.rgcf_density_on_meridian, retina.rgc_density_on_meridian):
        for k in range(4):
            add(f"{f.__name__} {k}", lambda a, f=f, k=k: f(a, np.full(len(a), k)), UV[:, 0] * 80, "none", f4=1e-3, bad=(np.nan,), ints=np.arange(0, 90, 7))
        add(f"{f.__name__} mixed", lambda a, f=f: f(a[:, 0], a[:, 1].astype(int)), np.stack((UV[:, 0] * 80, np.arange(19) % 4)).T, "none", f4=1e-3, ints=None)
    for w in (.183333, .5):
        add(f"hpsf {w}", lambda a, w=w: retina.hpsf(a, w), UV[:, 0] * 3, "seq one0 none", bad=(np.nan, np.inf), ints=[0, 1, 2, -3])
        add(f"inv_hpsf {w}", lambda a, w=w: retina.inv_hpsf(a, w), UV[:, 0] * .9 + .01, "one0 none", bad=(np.nan, 0.), f4=1e-4)
    sun = np.stack((6.8e-5 * (.2 + UV[:, 0]), np.geomspace(100, 1e7, 19))).T
    add("blur_sun", lambda a: retina.blur_sun(a[:, 0], a[:, 1]), sun, "none", f4=1e-4, bad=(nan2,))
    add("blur_sun of sizes", lambda a: retina.blur_sun(a, 5e4), sun[:, 0], "one0 none", f4=1e-4, bad=(np.nan,))
    g = hvsgsm.GSS(age=55)
    ev = np.geomspace(.3, 2e5, 15)
    add("pupil", lambda a: cols(*g.pupil(a)), ev, "none", f4=1e-4, bad=(np.nan, -1.), ints=[1, 5, 100, 20000])
    add("retinal_irradiance", lambda a: g.retinal_irradiance(a, 12.5), ev, "none", bad=(np.nan,), ints=[0, 1, 7])
    add("cone_response", lambda a: g.cone_response(a[:, 0], a[:, 1]), np.stack((ev, ev[::-1] * .3)).T, "none", f4=1e-4, bad=(nan2, (-1., 2)))
    add("f_b", lambda a: hvsgsm.f_b(.002, .3, a), UV[:, 0] * 1.5, "one0 none", f4=1e-3, bad=(np.nan,), ints=[0, 1])
    add("l_b", lambda a: hvsgsm.l_b(.002, .3, a), UV[:, 0] * 1.5, "one0 none", f4=1e-3, bad=(np.nan,), ints=[0, 1])
    return t


def call(fn, a):
    with np.errstate(all="ignore"), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return np.asarray(fn(a))


def rows_of(name, r, n, per):
    """result as one line per row"""
    check(r.size == n * per, f"{name}: {r.size} values for {n} rows, a row on its own gives {per}")
    return r.reshape(n, per)


def layouts(a):
    """the batch stored in other ways"""
    n = len(a)
    wide = np.full((n * 2,) + a.shape[1:], 1e30)
    wide[::2] = a
    back = np.ascontiguousarray(a[::-1])
    ro = a.copy()
    ro.setflags(write=False)
    yield "every other row", wide[::2]
    yield "reversed view", back[::-1]
    yield "read only", ro
    yield "big endian", a.astype(a.dtype.newbyteorder(">"))
    if a.ndim > 1:
        pad = np.full((n, a.shape[1] + 2), -1e30)
        pad[:, 1:-1] = a
        yield "columns of a wider table", pad[:, 1:-1]
        yield "column major", np.asfortranarray(a)
        yield "columns reversed", np.ascontiguousarray(a[:, ::-1])[:, ::-1]
    yield "unaligned", np.frombuffer(b"\0" + a.tobytes(), a.dtype, a.size, 1).reshape(a.shape)
    yield "subclass", a.view(type("Sub", (np.ndarray,), {}))


def g_rows(ctx, part, parts, deep):
    for k, (name, fn, rows, props, f4, bad, ints) in enumerate(table()):
        if k % parts != part:
            continue
        order = "sorted" in props
        alone = []

        def given():
            for r in rows:
                alone.append(call(fn, np.array([r])).ravel())
            check(len({len(i) for i in alone}) == 1, f"{name}: rows on their own give results of different sizes")
        ctx.run([name, "one by one"], given)
        if len(alone) != len(rows) or len({len(i) for i in alone}) != 1:
            continue
        one = np.array(alone)
        per = one.shape[1]
        discrete = one.dtype.kind in "biu"
        if len(np.unique(one, axis=0)) > 1:
            ctx.outcome(name)

        def eq(got, want, what, tol=1e-11):
            if tol > 1e-6 and discrete:
                tol = 0
            ok = np.isclose(got, want, rtol=tol, atol=tol * max(1., np.abs(want[np.isfinite(want)]).max(initial=0)) if tol > 1e-6 else 1e-11, equal_nan=True)
            if discrete:
                ok = got == want
            if not np.all(ok):
                i = int(np.argmin(ok.all(1)))
                raise Violation(f"{name}, {what}: row {i} gives {got[i].tolist()}, on its own {want[i].tolist()}")

        def conv(a, sel, what, keep=None, tol=1e-11, want=None):
            before = np.array(a, copy=True) if isinstance(a, np.ndarray) else None
            r = call(fn, a)
            eq(rows_of(f"{name}, {what}", r, len(sel), per), one[sel] if want is None else want, what, tol)
            if before is not None:
                check(np.array_equal(before, a, equal_nan=True), f"{name}, {what}: the batch given was changed")

        n = len(rows)
        idx = range(n)
        for size in (2, 3) if deep else (2,):
            pool = idx if size == 2 else idx[:20]

            def tuples():
                c = 0
                for sel in itertools.product(pool, repeat=size):
                    if order and list(sel) != sorted(set(sel)):
                        continue
                    sel = list(sel)
                    conv(rows[sel], sel, f"rows {sel} together")
                    c += 1
                ctx.trans(c)
                ctx.addstates(c)
            ctx.run([name, f"every ordered choice of {size} rows"], tuples)

        def turns():
            for d in (1, -1):
                for s in idx:
                    sel = list(np.roll(np.arange(n), s))[::d]
                    if order and sel != sorted(sel):
                        continue
                    conv(rows[sel], sel, f"all rows, rotated by {s}, step {d}")
        ctx.run([name, "rotations"], turns)
        if not order:
            for big in (4097, 20011) + ((140001,) if deep else ()):
                sel = np.arange(big) * 7 % n
                ctx.run([name, f"{big} rows"], lambda: conv(rows[sel], sel, f"{big} rows"))
        for what, a in layouts(rows):
            ctx.run([name, what], lambda: conv(a, list(idx), what))
        if f4 is not None:
            def single():
                a = rows.astype("f4")
                w = np.array([call(fn, np.array([r])).ravel() for r in a.astype(float)])
                conv(a, list(idx), "single precision", tol=f4, want=w)
            ctx.run([name, "single precision"], single)
        if ints is not None:
            def whole():
                v = np.array(ints, float)
                w = np.array([call(fn, np.array([r])).ravel() for r in v])
                for ty in ("i8", "i4"):
                    conv(v.astype(ty), list(range(len(v))), f"integers {ty}", want=w)
                    for j in range(len(v)):
                        conv(v[[j]].astype(ty), [j], f"integers {ty}, row {j}", want=w[[j]])
                if "bytes" in props:
                    conv(v.astype("u1"), list(range(len(v))), "unsigned bytes", want=w)
            ctx.run([name, "integers"], whole)
        if "seq" in props:
            def seqs():
                conv(rows.tolist(), list(idx), "a list")
                conv(tuple(tuple(r) for r in rows.tolist()) if rows.ndim > 1 else tuple(rows.tolist()), list(idx), "a tuple")
            ctx.run([name, "sequences"], seqs)
        if "one" in props or "one0" in props:
            def singles():
                for j, r in enumerate(rows):
                    conv(r, [j], "one row without the outer axis")
            ctx.run([name, "single"], singles)
        if "none" in props:
            def empty():
                r = call(fn, rows[:0])
                check(r.size == 0, f"{name}: {r.size} values for no rows")
            ctx.run([name, "no rows"], empty)
        if "grid" in props:
            def grid():
                h = n // 3
                for sh in ((h, 3), (3, h), (1, h * 3), (h * 3, 1)):
                    a = rows[:h * 3].reshape(*sh, -1)
                    conv(a, list(range(h * 3)), f"batch of shape {a.shape}")
                    a = np.asfortranarray(a)
                    conv(a, list(range(h * 3)), f"column major batch of shape {a.shape}")
            ctx.run([name, "more axes"], grid)
        for b in bad:
            def poison():
                for p in range(n + 1):
                    a = np.insert(rows, p, b, axis=0)
                    before = a.copy()
                    r = call(fn, a)
                    r = rows_of(f"{name}, with {b} at {p}", r, n + 1, per)
                    eq(np.delete(r, p, 0), one, f"with {b} at {p}")
                    check(np.array_equal(before, a, equal_nan=True), f"{name}, with {b} at {p}: the batch given was changed")
            ctx.run([name, "with a row", [str(i) for i in np.ravel(b)]], poison)


def groups(tier):
    return [(f"rows {p}", g_rows, p, 16, tier != "quick") for p in range(16)]
