"""The rays of images are computed twice: by the library (`hdr2vm`, `hdr2vol`, `vf_to_vm`, `pixelrays`, `pixel2ray`, `ray2pixel`) and by Radiance's own `vwrays` from the same file, and must
be the same rays. Explored: (a) images written with the header of every mapper of an integer lattice of half-sphere view directions (incl. straight up and down and directions next to them), resolutions, writers and view
points; (b) images put together the way a renderer does, each pixel coded by its number along Radiance's scan order and piped through `pvalue` and `getinfo` without the library, for every spelling of the view options; (c) view files; (d) every
sequence of up to 3 full views in a header, where the last one counts for both; (e) positions inside pixels, converted in either direction; (f) images produced by the library's own conversions; (g) the image size; (h) views narrower
than the half sphere, of which the line of sight and the meridian of every pixel are compared (the distance from the axis follows the library's own scale, a recorded finding of C24)."""
import itertools
import shlex
import subprocess

import numpy as np

from mc import ref
from mc.core import check, close, same, scratch
from raytools import imagetools, io
from raytools.mapper import ViewMapper

RULE = "one case per (view, resolution, way of writing); all non-trivial"

NEAR = [(.05, .02, 1), (-.02, .03, -1), (1e-3, 0, 1), (1, 0, 1e-3), (-.3, .2, -.9), (.123, 4.56, -.789),
        (4e-5, 3e-5, 1), (-3e-4, 2e-4, -1), (2e5, -3e6, 1e4), (3e-9, 4.2e-9, 1e-9)]


def run(cmd, data=None):
    r = subprocess.run(cmd if isinstance(cmd, list) else shlex.split(cmd), input=data, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode:
        raise RuntimeError(f"{cmd}: {r.stderr[-300:]}")
    return r.stdout


def vwrays(args, x, y):
    """(origins, directions), each (x, y, 3), of Radiance's rays"""
    r = np.frombuffer(run(["vwrays", "-fd", *args]), "f8").reshape(y, x, 6)[::-1].transpose(1, 0, 2)
    return r[..., :3], r[..., 3:]


def compare(name, rays, want):
    check(np.shape(rays) == np.shape(want), f"{name}: shape {np.shape(rays)} instead of {np.shape(want)}")
    close(rays, want, 2e-7, 0, name)


def same_rays(f, res, pt=None, what=""):
    o, d = vwrays([f], res, res)
    vm, p = imagetools.hdr2vm(f, vpt=True)
    compare(what + "rays of the view", vm.pixelrays(res), d)
    v, om, l = imagetools.hdr2vol(f)
    compare(what + "rays of the image", v.reshape(res, res, 3), d)
    same(o, np.broadcast_to(np.array(p, float), o.shape), what + "view point")
    if pt is not None:
        close(p, pt, 1e-9, 0, what + "view point written")
    return vm, d, l


def g_written(ctx, dirs, ress):
    with scratch():
        for n, (d, res) in enumerate(itertools.product(dirs, ress)):
            pt = ((0, 0, 0), (1, -2.5, 3e3), (1e-5, -2e20, 3), (.1, 1e-12, 123456.789))[n // 2 % 4]

            def go():
                vm = ViewMapper(d, 180)
                a = 1 + np.arange(res * res).reshape(res, res) / 4.
                h = vm.header(pt) if n % 3 else vm.init_img(res, pt)[4]
                if n % 2:
                    io.array2hdr(a, "a b.hdr", ["x= 1", h], clean=bool(n % 4 == 1))
                else:
                    io.carray2hdr(np.stack((a, a, a)), "a b.hdr", [h, "pfilt -1"], clean=bool(n % 4))
                same_rays("a b.hdr", res, pt)
            ctx.run([list(d), res], go)


def spell(d, pt, k):
    full = "%.9g %.9g %.9g"
    v = full % tuple(d)
    p = full % tuple(pt)
    return (f"-vta -vp {p} -vd {v} -vu 0 0 1 -vh 180 -vv 180", f"-vta -vh 180 -vv 180 -vd {v} -vp {p}", f"-vta -vu 0 0 1 -vh 180 -vd {v} -vv 180 -vo 0 -va 0 -vs 0 -vl 0 -vp {p}")[k]


def g_rendered(ctx, dirs, ress):
    """pixel values that number the pixels along Radiance's own order"""
    with scratch():
        for n, (d, res) in enumerate(itertools.product(dirs, ress)):
            if d[0] == d[1] == 0:
                continue            # straight up needs its own up vector
            for k in range(3):
                def go():
                    pt = (1, 2, -3)
                    view = spell(d, pt, k)
                    r = np.frombuffer(run(f"vwrays -fd {view} -x {res} -y {res}"), "f8").reshape(-1, 6)
                    num = np.arange(res * res)
                    # exactly representable values, all different
                    val = (32 + num % 32) / 32. * 2. ** (num // 32)
                    for col in ("gray", "red", "blue"):
                        px = np.zeros((res * res, 3), "f4")
                        px[:, {"gray": slice(None), "red": 0, "blue": 2}[col]] = np.reshape(val, (-1, 1)) if col == "gray" else val
                        pic = run(f"pvalue -r -h -H -df -y {res} +x {res}", px.tobytes())
                        with open("r.hdr", "wb") as f:
                            f.write(run(["getinfo", "-a", "rpict -ab 2", "VIEW= " + view], pic))
                        v, o, l = imagetools.hdr2vol("r.hdr", color=col != "gray")
                        l = l if col == "gray" else l[:, 0 if col == "red" else 2]
                        who = np.argmin(np.abs(l[:, None] / val - 1), 1)
                        same(np.sort(who), num, "every pixel is found once")
                        close(l, val[who], 0, .005, "value")
                        compare(f"{col}: direction of the pixel", v, r[who, 3:])
                        vm, p = imagetools.hdr2vm("r.hdr", True)
                        close(p, pt, 1e-6, 0, "view point")
                ctx.run([list(d), res, k], go)


def g_files(ctx, dirs, ress):
    with scratch():
        for n, (d, res) in enumerate(itertools.product(dirs, ress)):
            if d[0] == d[1] == 0:
                continue
            for k in range(3):
                for head in ("rvu ", "VIEW= ", "rpict "):
                    def go():
                        with open("v w.vf", "w") as f:
                            f.write(head + spell(d, (0, 0, 5), k) + "\n")
                        o, want = vwrays(["-vf", "v w.vf", "-x", str(res), "-y", str(res)], res, res)
                        compare("rays of the view file", imagetools.vf_to_vm("v w.vf").pixelrays(res), want)
                    ctx.run([list(d), res, k, head], go)


def g_viewsets(ctx, depth):
    """view files of several views: the last one counts"""
    lines = ["rvu " + spell((0, 1, 0), (0, 0, 0), 0), "rvu -vta -vh 180 -vv 180 -vd 1.0000000 0.000000000 0.000000000 -vp 0.0000000 0.00000 0.00000000 -vu 0 0 1",
             "VIEW= " + spell((1, -1, .5), (1, 2, 3), 1), "rpict -ab 2 -x 4 " + spell((-.3, .2, -.9), (-4, 0, 1e3), 2), "rvu -vta -vh 180 -vv 180 -vd 0 -1 0 -vp 0 0 0 -vu 0 0 1"]
    with scratch():
        for k in range(1, depth + 1):
            for seq in itertools.product(range(len(lines)), repeat=k):
                def go():
                    with open("s.vf", "w") as f:
                        f.write("".join(lines[i] + "\n" for i in seq))
                    o, want = vwrays(["-vf", "s.vf", "-x", "4", "-y", "4"], 4, 4)
                    compare("rays of the view file", imagetools.vf_to_vm("s.vf").pixelrays(4), want)
                ctx.run([list(seq), "file"], go)
                ctx.trans(k)


def g_seq(ctx, depth):
    views = ["VIEW= " + spell(d, p, k) for d, p, k in (((0, 1, 0), (0, 0, 0), 0), ((1, -1, .5), (1, 2, 3), 1), ((-.3, .2, -.9), (-4, 0, 1e3), 2), ((-1, 0, 0), (0, 0, 0), 1))]
    with scratch():
        for k in range(1, depth + 1):
            for seq in itertools.product(range(len(views)), repeat=k):
                def go():
                    a = np.arange(16.).reshape(4, 4)
                    h = []
                    for i in seq:
                        h += [f"pcomb -s {i}", views[i]]
                    io.array2hdr(a, "s.hdr", h)
                    same_rays("s.hdr", 4)
                    io.array2hdr(a, "s.hdr", h, clean=True)
                    same_rays("s.hdr", 4, what="cleaned header: ")
                    b, hd = io.hdr2array("s.hdr", header=True)
                    io.array2hdr(b, "t.hdr", hd, clean=True)
                    same_rays("t.hdr", 4, what="written again: ")
                ctx.run(list(seq), go)
                ctx.trans(k)


def g_inside(ctx, dirs, res):
    """positions anywhere in the image, in pixels from the lower left corner"""
    t = np.arange(.25, res, .5)
    p = np.stack(np.meshgrid(t, t, indexing="ij"), -1).reshape(-1, 2)
    p = p[np.hypot(*(p - res / 2).T) < res * .5]
    with scratch():
        for d in dirs:
            if d[0] == d[1] == 0:
                continue

            def go():
                vm = ViewMapper(d, 180)
                text = "\n".join("%.12g %.12g" % tuple(i) for i in p - .5) + "\n"
                r = np.frombuffer(run(f"vwrays -i -fd {vm.header()[5:]} -x {res} -y {res}", text.encode()), "f8").reshape(-1, 6)[:, 3:]
                back = vm.ray2pixel(r, res, integer=False)
                close(back, p, 1e-5 * res, 0, "position of Radiance's ray")
                same(vm.ray2pixel(r, res), np.floor(p).astype(int), "pixel of Radiance's ray")
                compare("ray of the position", vm.vxy2xyz(p / res), r)
                check(vm.in_view(r, False), "Radiance's rays are in view")
            ctx.run([list(d), res], go)


def g_made(ctx, dirs, res):
    """images made by the library's own conversions keep a view that fits their content"""
    with scratch():
        for d in dirs:
            def go():
                vm = ViewMapper(d, 180)
                rays = vm.pixelrays(res)
                a = np.stack((1.2 + rays[..., 0], 1.2 + rays[..., 1], 1.2 + rays[..., 2]))
                io.carray2hdr(a, "c.hdr", [vm.header()])
                # the image says in which direction each of its pixels looks
                out = {"plain": "c.hdr", "turned by nothing": imagetools.hdr_rotate("c.hdr", "r.hdr", 0.)}
                imagetools.hdr_ang2uv("c.hdr", outf="u.hdr")
                out["to the square and back"] = imagetools.hdr_uv2ang("u.hdr", "w.hdr") if list(d) == [0, 1, 0] else "c.hdr"
                for k, f in out.items():
                    o, w = vwrays([f], res, res)
                    got = np.moveaxis(io.hdr2carray(f), 0, -1) - 1.2
                    edge = vm.in_view(rays, False).reshape(res, res)
                    edge &= np.pad(edge, 1)[2:, 1:-1] & np.pad(edge, 1)[:-2, 1:-1] & np.pad(edge, 1)[1:-1, 2:] & np.pad(edge, 1)[1:-1, :-2]
                    # the brightest channel is at most 2.2 and limits the precision of a pixel
                    tol = .02 if k != "to the square and back" else 4.5 / res
                    close(got[edge], w[edge], tol, 0, f"{k}: direction told by the content")
            ctx.run([list(d), res], go)


def g_size(ctx, top):
    with scratch():
        for x, y in itertools.product(range(1, top + 1), repeat=2):
            def go():
                io.array2hdr(np.ones((x, y)), "X 9 Y.hdr", [ViewMapper((0, 1, 0), 180).header()] if (x + y) % 2 else None)
                got = imagetools.img_size("X 9 Y.hdr")
                r = run(["getinfo", "-d", "X 9 Y.hdr"]).split()
                same(tuple(got), (int(r[-1]), int(r[-3])), "image size")
                if (x + y) % 2 and x == y:
                    w = run(["vwrays", "-d", "X 9 Y.hdr"]).split()
                    same(tuple(got), (int(w[1]), int(w[3])), "image size for vwrays")
            ctx.run([x, y], go)


def g_narrow(ctx, va, dirs, ress):
    with scratch():
        for d, res in itertools.product(dirs, ress):
            def go():
                vm = ViewMapper(d, va)
                io.array2hdr(np.ones((res, res)), "n.hdr", [vm.header()])
                o, w = vwrays(["n.hdr"], res, res)
                g = imagetools.hdr2vm("n.hdr").pixelrays(res)
                n = np.array(ref.unit(d))
                inside = vm.in_view(g, False).reshape(res, res)
                gp, wp = [i - n * (i @ n)[..., None] for i in (g, w)]
                a, b = [np.linalg.norm(i, axis=-1) for i in (gp, wp)]
                m = inside & (b > 1e-6)
                close((gp / np.maximum(a, 1e-12)[..., None])[m], (wp / np.maximum(b, 1e-12)[..., None])[m], 1e-6, 0, "meridian")
                if res % 2:
                    close(g[res // 2, res // 2], w[res // 2, res // 2], 2e-7, 0, "line of sight")
            ctx.run([list(d), va, res], go)


def groups(tier):
    q = tier == "quick"
    dirs = ref.lattice_dirs(1 if q else 2) + NEAR
    some = dirs[::3] + NEAR
    g = []
    for k in range(4):
        g.append((f"written {k}", g_written, dirs[k::4], (1, 2, 3, 5, 8, 13) if q else (1, 2, 3, 4, 5, 6, 7, 8, 9, 13, 16, 33, 64)))
    for k in range(2):
        g.append((f"rendered {k}", g_rendered, (some if q else dirs)[k::2], (2, 5, 12) if q else (1, 2, 3, 5, 8, 12, 20)))
    g.append(("view files", g_files, some if q else dirs, (4,) if q else (3, 4, 9)))
    g.append(("view files of several views", g_viewsets, 3 if q else 4))
    g.append(("views in a row", g_seq, 3 if q else 4))
    g.append(("inside", g_inside, dirs, 7 if q else 23))
    g.append(("made", g_made, some if q else dirs, 32 if q else 64))
    g.append(("size", g_size, 9 if q else 20))
    for va in (120, 60.5, 10) if q else (179, 150, 120, 90, 60.5, 30, 10, 2):
        g.append((f"narrow {va}", g_narrow, va, some if q else dirs, (1, 4, 9) if q else (1, 2, 3, 4, 9, 16)))
    return g
