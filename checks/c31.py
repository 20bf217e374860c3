"""Small gray and colour source images (several sizes, views, 360 degree two-part images, headers with commands, keys, views and long lines, file names with spaces and dots)
are run through every file operation with every combination of its options, to a given file (new or existing), to the derived name and to standard output. The written pixels must equal,
byte for byte, those of writing the array operation of the file's pixels; the returned name, the set of files in the folder, the unchanged source and every word under its key
of the source header are compared. All chains of two operations (thorough: three) are followed likewise, each fed with the result of the one before; the view in the result is checked."""
import itertools
import os

import numpy as np

from mc.core import captured, check, close, same, scratch
from checks.c03 import pairs
from raytools import imagetools, io
from raytools.mapper import SolidViewMapper, ViewMapper

RULE = "one case per (source image, operation, options, output form) or chain; all non-trivial"

HEADS = {
    "bare": [],
    "own": ["EXPOSURE=2.5", "LuminanceRGB= 0.2 0.7 0.1", "SOFTWARE= RADIANCE 5.4a", "CAPDATE= 2020:01:02 03:04:05"],
    "cmd": ["rpict -ab 2 -ad 512 'my scene.oct'", "\tnested.hdr:", "\t\toconv sky.rad", "pcomb -s 2 -o x.hdr", "VIEW= -vta -vd 0 0 1 -vh 30 -vv 30"],
    "long": ["vwrays " + " ".join(f"-o{i} {i * 17}" for i in range(40)), "x"],
}
VIEWS = {"none": None, "180": ((0, 1, 0), 180), "side": ((1, 2, .5), 180), "120": ((0, 1, 0), 120), "360": ((0, 1, 0), 360)}


def image(shape, seed):
    n = int(np.prod(shape))
    k = np.arange(n)
    a = ((k * 7919 + seed * 131 + 17) % 251 + 1) / 16. * 2. ** ((k * 31 + seed) % 5 - 2)
    a[(k * 13 + seed) % 11 == 0] = 0
    return a.reshape(shape)


def source(path, res, view, color, head, seed=0):
    x = 2 * res if view == "360" else res
    lines = list(HEADS[head])
    if VIEWS[view] is not None:
        lines.append(ViewMapper(*VIEWS[view]).header((1, 2, 3)))
    a = image((3, x, res) if color else (x, res), seed)
    (io.carray2hdr if color else io.array2hdr)(a, path, lines)


def pixels(path):
    """everything after the header"""
    b = open(path, "rb").read()
    return b[b.index(b"\n\n") + 2:]


def lines(path):
    b = open(path, "rb").read()
    return b[:b.index(b"\n\n")].decode().splitlines()[1:]


def viewmapper(view):
    return None if VIEWS[view] is None else ViewMapper(*VIEWS[view])


def operations(view):
    """(name, call(path, **out), array operation, suffix, view entry)"""
    v = viewmapper(view)
    sq = view != "360"
    out = [("uv2ang", lambda p, **k: imagetools.hdr_uv2ang(p, **k), imagetools.array_uv2ang, "_ang", None)]
    for use in (True, False):
        if use or sq:
            m = v if use else None
            out.append((f"ang2uv {use}", lambda p, use=use, **k: imagetools.hdr_ang2uv(p, use, **k), lambda a, m=m: imagetools.array_ang2uv(a, m), "_uv", None))
    if not sq:
        return out
    for va in (None, 180, 90) if view != "120" else (None, 100.):
        for rev in (False, True):
            for near in (False, True):
                a = va or (180 if v is None else v.viewangle)
                vmo = ViewMapper(viewangle=a) if not rev else SolidViewMapper(viewangle=a, name="vts")
                out.append((f"solid2ang {va} {rev} {near}", lambda p, va=va, rev=rev, near=near, **k: imagetools.hdr_solid2ang(p, nearest=near, reverse=rev, viewangle=va, **k),
                            lambda x, a=a, rev=rev, near=near: imagetools.array_solid2ang(x, near, rev, a, False), "_2vts" if rev else "_2vta", vmo.header()))
    for ang, c, first, near in ((0., None, True, False), (90, None, True, True), (-33.3, None, False, False), (0, (2, 1), True, False), (15., (1, 2), True, False), (15., (1, 2), False, False), (0., (2, 2), False, False), (-7, None, True, False), (7, (1, 1, 2, 2), True, True)):
        s = ""
        r = f"_r{int(ang):02d}"
        if ang != 0 and first:
            s += r
        if c:
            s += f"_{c[0]}-{c[1]}"
        if ang != 0 and not first:
            s += r
        out.append((f"rotate {ang} {c} {first} {near}", lambda p, ang=ang, c=c, first=first, near=near, **k: imagetools.hdr_rotate(p, rotate=ang, center=c, rotate_first=first, nearest=near, **k),
                    lambda x, ang=ang, c=c, first=first, near=near: imagetools.array_rotate(x, ang, c, rotate_first=first, nearest=near), s, None))
    return out


def resolve(path, name, aop, vline):
    """array operation and view entry for operations that use the view of the file"""
    m = imagetools.hdr2vm(path)
    if name == "ang2uv True":
        return lambda a: imagetools.array_ang2uv(a, m), vline
    if name.startswith("solid2ang None"):
        rev, near = [i == "True" for i in name.split()[2:]]
        va = 180 if m is None else m.viewangle
        return (lambda a: imagetools.array_solid2ang(a, near, rev, va, False),
                (ViewMapper(viewangle=va) if not rev else SolidViewMapper(viewangle=va, name="vts")).header())
    return aop, vline


def verify(src, out, arrayop, vline, heads):
    ar = io.hdr2carray(src)
    io.carray2hdr(arrayop(ar), "/".join((os.path.dirname(os.path.abspath(out)), ".ref")))
    ref = os.path.join(os.path.dirname(os.path.abspath(out)), ".ref")
    want = pixels(ref)
    os.remove(ref)
    got = pixels(out)
    check(got.split(b"\n", 1)[0] == want.split(b"\n", 1)[0], "resolution", )
    if got != want:
        close(io.hdr2carray(out), arrayop(ar), 1e-6, .02, "pixels")
        check(False, "pixels differ from the written array operation")
    a, b = pairs(heads), pairs(lines(out))
    check(not a - b, f"header words lost: {sorted(a - b)[:5]}")
    vs = [i for i in lines(out) if i.strip().startswith("VIEW=")]
    ws = [i for i in heads if i.strip().startswith("VIEW=")]
    if vline:
        ws.append(vline)
    check([i.split() for i in vs] == [i.split() for i in ws[-1:]], f"view entries {vs}, expected {ws[-1:]}")


def g_ops(ctx, view, color, ress, heads, names):
    with scratch():
        n = 0
        for res in ress:
            for name, call, aop, suffix, vline in operations(view):
                if "rotate" in name and res < 3:
                    continue
                forms = [(m, None, None) for m in ("given", "exists", "stdout", "named stdout")]
                forms += [("derived", f, w) for f in names for w in ("work dir", "set.hdr.d")]
                for mode, fn, wd in forms:
                    hd = heads[n % len(heads)]
                    fn = fn or names[n // len(heads) % len(names)]
                    wd = wd or ("work dir", "set.hdr.d")[n // 3 % 2]
                    n += 1

                    def go():
                        src = fn + ".hdr"
                        os.makedirs(wd, exist_ok=True)
                        for f in os.listdir(wd):
                            os.remove(os.path.join(wd, f))
                        p = os.path.join(wd, src)
                        source(p, res, view, color, hd, n)
                        before = open(p, "rb").read()
                        heads_in = lines(p)
                        o = None
                        if mode in ("given", "exists", "named stdout"):
                            o = os.path.join(wd, "out file.x")
                            if mode == "exists":
                                with open(o, "wb") as f:
                                    f.write(b"old content" * 5000)
                        with captured() as box:
                            r = call(p, outf=o, stdout="stdout" in mode)
                        if mode == "stdout":
                            check(r is None, f"returned {r!r}")
                            check(sorted(os.listdir(wd)) == [src], f"files {sorted(os.listdir(wd))}")
                            o = os.path.join(wd, "captured.hdr")
                            with open(o, "wb") as f:
                                f.write(box["out"])
                        else:
                            check(box["out"] == b"", f"output {box['out'][:60]}")
                            if mode == "derived":
                                o = os.path.join(wd, fn + suffix + ".hdr")
                            check(r == o, f"returned {r!r}, expected {o!r}")
                            check(sorted(os.listdir(wd)) == sorted({src, os.path.basename(o)}), f"files {sorted(os.listdir(wd))}, expected {o}")
                        if suffix or mode != "derived":
                            check(open(p, "rb").read() == before, "source changed")
                            verify(p, o, *resolve(p, name, aop, vline), heads_in)
                        ctx.outcome((name, mode, hd))
                    ctx.run([view, color, res, hd, wd, fn, name, mode], go)


def g_chain(ctx, view, color, res, depth, part, parts):
    with scratch():
        ops = operations(view)
        for k, seq in enumerate(itertools.product(range(len(ops)), repeat=depth)):
            if k % parts != part:
                continue
            hd = list(HEADS)[k % len(HEADS)]

            def go():
                for f in os.listdir("."):
                    os.remove(f)
                cur = "a.hdr"
                vw = view
                source(cur, res, view, color, hd, k)
                for s in seq:
                    # operations under the view the current file has
                    name, call, aop, suffix, vline = ops[s]
                    aop, vline = resolve(cur, name, aop, vline)
                    before = open(cur, "rb").read()
                    heads_in = lines(cur)
                    out = call(cur)
                    check(out == cur[:-4] + suffix + ".hdr", f"returned {out!r}")
                    if out == cur:
                        continue
                    check(open(cur, "rb").read() == before, "source changed")
                    verify(cur, out, aop, vline, heads_in)
                    cur = out
                    ctx.trans()
                ctx.state((view, color, seq))
            ctx.run([view, color, res, hd, [ops[i][0] for i in seq]], go)


def groups(tier):
    q = tier == "quick"
    g = []
    names = ["plain", "two words", "dots.in.name", "it's", "a.hdr.b"]
    for view in VIEWS:
        for color in (False, True):
            ress = ((4,) if color else (7,)) if q else (1, 2, 3, 4, 5, 8, 11)
            g.append((f"{view} {'colour' if color else 'gray'}", g_ops, view, color, ress, list(HEADS), names))
    for p in range(2 if q else 8):
        g.append((f"chains {p}", g_chain, "180", True, 4, 2, p, 12 if q else 8))
        g.append((f"chains view {p}", g_chain, "side", False, 5, 2, p, 12 if q else 8))
    return g
