"""Views are recovered from (a) images written with the header text of every mapper of a lattice of view directions, angles (incl. two-part 360 degree images), view points
and image sizes; (b) images whose header holds every sequence of up to 3 (thorough: 4) entries over an alphabet of full, minimal, tab-indented, rvu, perspective and
square views and unrelated lines; (c) every order of the view options with any of direction and point missing; and the same for view files. The expected
mapper comes from a small independent parser of the last angular view; file names include spaces, quotes and option-like words."""
import itertools
import os

import numpy as np

from mc import ref
from mc.core import check, close, fail, raises, same, scratch
from raytools import imagetools, io
from raytools.mapper import ViewMapper

RULE = "one case per (view, image size) or header/view-file content; trivial when there is no view"


def hdr(path, lines, x, y):
    """a flat RGBE image written without the library"""
    with open(path, "wb") as f:
        f.write(b"#?RADIANCE\n" + "".join(i + "\n" for i in lines).encode() + b"FORMAT=32-bit_rle_rgbe\n\n" + f"-Y {y} +X {x}\n".encode())
        f.write(bytes((128, 128, 128, 129)) * (x * y))


def expect(vm, d, va, what=""):
    check(type(vm) is ViewMapper or isinstance(vm, ViewMapper), f"{what} no mapper: {vm!r}")
    close(vm.dxyz, ref.unit(d), 1e-9, 0, f"{what} view direction")
    want = ViewMapper(d, va)
    same(vm.aspect, want.aspect, f"{what} aspect")
    close(vm.viewangle, want.viewangle, 1e-9, 0, f"{what} view angle")
    close(vm.pixelrays(3), want.pixelrays(3), 1e-9, 0, f"{what} pixel rays")


def g_round(ctx, va, ds, pts, sizes):
    with scratch():
        n = 0
        for d in ds:
            for pt in pts:
                r = sizes[n % len(sizes)]
                n += 1

                def go():
                    vm = ViewMapper(d, va)
                    x = 2 * r if va == 360 else r
                    a = np.full((x, r), .5) if n % 2 else np.full((3, x, r), .5)
                    f = ("a.hdr", "b c.hdr", "d'e.hdr", "-x.hdr" if False else "X Y 7.hdr")[n % 4]
                    h = vm.header(pt) if n % 3 else vm.init_img(r, pt)[4]
                    (io.array2hdr if n % 2 else io.carray2hdr)(a, f, [h])
                    got, p = imagetools.hdr2vm(f, vpt=True)
                    expect(got, d, va)
                    close(p, pt, 1e-9, 0, "view point")
                    expect(imagetools.hdr2vm(os.path.abspath(f)), d, va, "without point:")
                    with open("v.vf", "w") as g:
                        g.write(h.replace("VIEW=", "rvu") + "\n")
                    if va != 360:
                        expect(imagetools.vf_to_vm("v.vf"), d, va, "view file:")
                ctx.run([list(d), list(pt), r], go)


ALPHA = {
    "full": ("VIEW= -vta -vp 1 2 3 -vd 0 0 -1 -vu 0 1 0 -vh 90 -vv 90 -vs 0 -vl 0", (0, 0, -1), 90, (1, 2, 3)),
    "other": ("VIEW= -vta -vv 180 -vh 180 -vd 1 1 0.5 -vp -4 5.5 0 -vu 0 0 1", (1, 1, .5), 180, (-4, 5.5, 0)),
    "minimal": ("VIEW= -vta -vv 120 -vh 120", (0, 1, 0), 120, (0, 0, 0)),
    "tab": ("\tVIEW= -vta -vh 60 -vv 60 -vd -1 0 0", (-1, 0, 0), 60, (0, 0, 0)),
    "rvu": ("rvu -vta -vp 7 8 9 -vd 0 -1 0 -vu 0 0 1 -vh 150 -vv 150 -vo 0 -va 0 -vs 0 -vl 0", (0, -1, 0), 150, (7, 8, 9)),
    "rvu2": ("rvu -vta -vh 100 -vv 100", (0, 1, 0), 100, (0, 0, 0)),
    "persp": ("VIEW= -vtv -vp 3 3 3 -vd 1 0 0 -vu 0 0 1 -vh 45 -vv 45", None, None, None),
    "square": ("VIEW= -vuv -vv 180 -vh 180 -vd 1 0 0 -vp 0 0 0 -vu 0 0 1", None, None, None),
    "text": ("pcomb -e ro=ri(1) cannot open -vh 12", None, None, None),
}


def want_of(seq, form):
    """last angular view; None when there is none; 'skip' when both header forms occur"""
    views = [i for i in seq if ALPHA[i][1] is not None]
    if form == "hdr" and len({i.startswith("rvu") for i in views}) == 2:
        return "skip"
    return ALPHA[views[-1]] if views else None


def g_seq(ctx, depth, firsts):
    with scratch():
        for k in range(depth + 1):
            for seq in itertools.product(ALPHA, repeat=k):
                if (seq[0] if seq else "") not in firsts:
                    continue

                def go():
                    lines = [ALPHA[i][0] for i in seq]
                    w = want_of(seq, "hdr")
                    hdr("s.hdr", lines, 6, 6)
                    vm, pt = imagetools.hdr2vm("s.hdr", True)
                    ctx.outcome(seq)
                    if w is None:
                        check(vm is None, "a mapper without an angular view")
                        check(imagetools.hdr2vm("s.hdr") is None, "a mapper without an angular view")
                    elif w != "skip":
                        expect(vm, w[1], w[2])
                        close(pt, w[3], 1e-9, 0, "view point")
                        if w[2] == 180:
                            hdr("t.hdr", lines, 12, 6)
                            expect(imagetools.hdr2vm("t.hdr"), w[1], 360, "two-part image:")
                    w = want_of(seq, "vf")
                    with open("s.vf", "w") as f:
                        f.write("\n".join(lines) + ("\n" if k % 2 else ""))
                    if w is None:
                        raises(ValueError, imagetools.vf_to_vm, "s.vf")
                    else:
                        expect(imagetools.vf_to_vm("s.vf"), w[1], w[2], "view file:")
                ctx.run(list(seq), go)


def g_up(ctx, ds):
    """the up vector of the view entry is the up of the image"""
    for d in ds:
        for va in (180, 90, 360):
            def go():
                vm = ViewMapper(d, va)
                w = vm.header().split()
                u, v = [np.array([float(i) for i in w[w.index(k) + 1:w.index(k) + 4]]) for k in ("-vu", "-vd")]
                e = u - v * (u @ v) / (v @ v)
                check(np.linalg.norm(e) > 1e-9, "the up vector is parallel to the view")
                r = ViewMapper(d, 90).pixelrays(9)
                up, n = r[4, 5] - r[4, 3], r[4, 4]
                up = up - n * (up @ n)
                close(e / np.linalg.norm(e), up / np.linalg.norm(up), 1e-4 if abs(v[2]) > 1 - 1e-9 else 1e-6, 0, "up vector")
            ctx.run([list(d), va, "up"], go)


def g_order(ctx, form):
    opts = {"-vv": "77", "-vh": "77", "-vd": ".3 -.8 .4", "-vp": "1.5 -2.5 3e1", "-vu": "0 0 1", "-vs": "0", "-vo": "0"}
    with scratch():
        for drop in ((), ("-vd",), ("-vp",), ("-vd", "-vp")):
            keys = [k for k in opts if k not in drop]
            for n, perm in enumerate(itertools.permutations(keys)):
                if len(perm) > 5 and n % 7:
                    continue        # 5-option orders completely, every 7th of longer ones

                def go():
                    line = f"{form} -vta " + " ".join(f"{k} {opts[k]}" for k in perm)
                    d = (0, 1, 0) if "-vd" in drop else (.3, -.8, .4)
                    p = (0, 0, 0) if "-vp" in drop else (1.5, -2.5, 30)
                    with open("o.vf", "w") as f:
                        f.write(line + "\n")
                    expect(imagetools.vf_to_vm("o.vf"), d, 77, "view file:")
                    if n % 5 == 0 or len(perm) < 6:
                        hdr("o.hdr", [line], 4, 4)
                        vm, pt = imagetools.hdr2vm("o.hdr", vpt=True)
                        expect(vm, d, 77)
                        close(pt, p, 1e-9, 0, "view point")
                ctx.run([list(drop), list(perm)], go)


def g_history(ctx, depth):
    """a file (and a view file) written again and again under one name: every sequence of contents"""
    conts = [("VIEW= -vta -vd 0 1 0 -vh 90 -vv 90", 6, 6, (0, 1, 0), 90, (0, 0, 0)), ("VIEW= -vta -vd 0 1 0 -vh 90 -vv 90", 12, 6, (0, 1, 0), 180, (0, 0, 0)),
             ("VIEW= -vta -vd 1 0 0 -vp 1 2 3 -vh 180 -vv 180", 5, 5, (1, 0, 0), 180, (1, 2, 3)), ("VIEW= -vta -vd 0 1 0 -vh 180 -vv 180", 10, 5, (0, 1, 0), 360, (0, 0, 0)),
             ("no view", 6, 6, None, None, None), ("VIEW= -vta -vd 0 0 1 -vh 90 -vv 90", 6, 6, (0, 0, 1), 90, (0, 0, 0))]
    with scratch():
        for k in range(1, depth + 1):
            for seq in itertools.product(range(len(conts)), repeat=k):
                def go():
                    for i in seq:
                        line, x, y, d, va, p = conts[i]
                        hdr("h.hdr", [line], x, y)
                        with open("h.vf", "w") as f:
                            f.write(line + "\n")
                        vm, pt = imagetools.hdr2vm("h.hdr", True)
                        same(imagetools.img_size("h.hdr"), (x, y), "image size")
                        if d is None:
                            check(vm is None, "a mapper without a view")
                            raises(ValueError, imagetools.vf_to_vm, "h.vf")
                            continue
                        expect(vm, d, va)
                        close(pt, p, 1e-9, 0, "view point")
                        expect(imagetools.vf_to_vm("h.vf"), d, va if x == y else va / 2, "view file:")
                        # mappers given out earlier belong to the caller
                        vm.dxyz = (.3, .4, 1)
                        ctx.trans(2)
                ctx.run(list(seq), go)
                ctx.trace()


def g_err(ctx):
    with scratch():
        def missing():
            raises(FileNotFoundError, imagetools.hdr2vm, "nothing here.hdr")
            raises(OSError, imagetools.vf_to_vm, "nothing.vf")
        ctx.run(["missing"], missing)

        def text():
            with open("t.txt", "w") as f:
                f.write("VIEW= -vta -vh 180 -vv 180\n" * 3)
            raises(OSError, imagetools.hdr2vm, "t.txt")
        ctx.run(["not an image"], text)

        def sizes():
            for x, y in ((1, 1), (5, 3), (2, 9), (16, 8)):
                for f in ("s.hdr", "X.hdr", "a Y 1 X.hdr"):
                    hdr(f, ["VIEW= -vta -vh 180 -vv 180"], x, y)
                    same(imagetools.img_size(f), (x, y), "image size")
        ctx.run(["sizes"], sizes)


def groups(tier):
    q = tier == "quick"
    ds = ref.lattice_dirs(1 if q else 2) + [(1e-3, 0, 1), (.13, -.435, 1)]
    pts = [(0, 0, 0), (1.5, -2, 3.25), (-1e3, 1e-3, .1)]
    g = [(f"written {va}", g_round, va, ds, pts if not q else pts[1:2] + pts[:1], (4, 5, 9)) for va in ((180, 360, 90, 44.5) if q else (180, 360, 179, 153, 90, 44.5, 5, 1))]
    names = list(ALPHA) + [""]
    for i in range(0, len(names), 2 if q else 1):
        g.append((f"sequences {i}", g_seq, 3 if q else 4, names[i:i + (2 if q else 1)]))
    for f in ("VIEW=", "rvu"):
        g.append((f"order {f}", g_order, f))
    near = [(x * s, y * s, z) for z in (1, -1) for s in (.3, .1, .05, 1e-2, 1e-3, 1e-4, 1e-5, 0) for x, y in ((1, 0), (0, 1), (-1, 1), (0, -1))]
    g.append(("up", g_up, ref.lattice_dirs(2 if q else 4) + near))
    return g + [("errors", g_err), ("history", g_history, 2 if q else 4)]
