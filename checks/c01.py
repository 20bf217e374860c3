"""Images are written and read back through the real Radiance binaries: every shape up to a bound in both directions and the widths at which
run-length encoding starts, stops and splits; index-coded contents (every pixel distinct, so any transposition, flip or channel swap shows), single-pixel
impulses at every position, pixel magnitudes over the RGBE exponent range, dtypes, memory layouts, file-name kinds, header and
cleaning options, pre-existing longer target files, reading from standard input and writing to standard output."""
import itertools
import os

import numpy as np

from mc.core import captured, check, close, raises, same, scratch
from raytools import io

RULE = ("one case per (shape, content, channels, option): one write, then the grey, colour and weighted reads of the "
        "same file; non-trivial: every case writes a file")
LAM = np.array((.265, .670, .065))
TOL = 1 / 100


def rgbe_close(got, exp, msg):
    """(3,x,y) or (x,y): error relative to the brightest channel of the pixel"""
    exp = np.maximum(np.asarray(exp, float), 0)
    m = np.max(exp, 0) if exp.ndim == 3 else exp
    check(got.shape == exp.shape, f"{msg}: shape {got.shape} instead of {exp.shape}")
    bad = np.abs(got - exp) > TOL * m + 1.1e-32
    if np.any(bad):
        i = tuple(np.argwhere(bad)[0])
        check(False, f"{msg}: pixel {i}: {got[i]} instead of {exp[i]}")


def read_all(f, a, name):
    """a: (x,y) or (3,x,y) what was written"""
    col = np.stack([a] * 3) if a.ndim == 2 else a
    grey = a if a.ndim == 2 else np.einsum("i,ijk->jk", LAM, np.maximum(a, 0))
    mx = np.max(np.maximum(col, 0), 0)
    rgbe_close(io.hdr2carray(f), col, name + ": colour read")
    g = io.hdr2array(f)
    check(g.shape == grey.shape, f"{name}: grey shape {g.shape} instead of {grey.shape}")
    check(np.abs(g - np.maximum(grey, 0)) <= TOL * mx + 1.1e-32, name + ": grey read")
    for w in ((1., 0, 0), (0, 0, 2.), (.2126, .7152, .0722), (1, 0, -1), (-.5, .25, -2)):
        v = io.hdr2array(f, vlambda=w)
        e = np.einsum("i,ijk->jk", w, np.maximum(col, 0))
        check(v.shape == e.shape and np.all(np.abs(v - e) <= TOL * np.sum(np.abs(w)) * mx + 5e-32), name + ": weighted read")
        c = io.hdr2carray(f).astype(float)
        close(v, np.einsum("i,ijk->jk", w, c), 1e-32 + 1e-6 * np.max(np.abs(c)), 1e-6, name + ": weights applied to the channels")


def coded(shape, ch):
    n = shape[0] * shape[1]
    a = 1 + np.arange(n, dtype=float).reshape(shape) * (7 / max(n, 8))
    if ch == 1:
        return a
    return np.stack((a, a[::-1] * .5 + .25, a[:, ::-1] * 2 + .1))


def g_shapes(ctx, shapes, ch):
    with scratch():
        for s in shapes:
            a = coded(s, ch)

            def go():
                w = io.array2hdr if ch == 1 else io.carray2hdr
                check(w(a, "i.hdr") == "i.hdr", "returned name")
                read_all("i.hdr", a, "plain")
                if ch == 3:
                    io.array2hdr(a, "j.hdr")
                    same(io.hdr2carray("j.hdr"), io.hdr2carray("i.hdr"), "array2hdr of colour")
                w(a, "h.hdr", header=["A= 1", "two words"])
                same(io.hdr2carray("h.hdr"), io.hdr2carray("i.hdr"), "header changes pixels")
                w(a, "h.hdr", header=[])
                same(io.hdr2carray("h.hdr"), io.hdr2carray("i.hdr"), "empty header changes pixels")
            ctx.run(["shape", s, ch], go)


def g_impulse(ctx, top, ch):
    with scratch():
        for s in itertools.product(range(1, top + 1), repeat=2):
            for p in range(s[0] * s[1] * ch):
                a = np.zeros(s if ch == 1 else (3,) + s)
                a.flat[p] = 3.
                ctx.run(["impulse", s, ch, p], lambda: (
                    (io.array2hdr if ch == 1 else io.carray2hdr)(a, "i.hdr"), read_all("i.hdr", a, "impulse")))


def g_range(ctx, step):
    mags = [10. ** k for k in range(-28, 33, step)] + [2. ** k for k in range(-100, 101, 10 * step)]
    with scratch():
        for m in mags:
            for k, f in enumerate((1., .999, 1.0001, 1.5, 1.9999)):
                def go():
                    a = np.array([[m * f, 0, 1.], [m, m * f / 2, m * f / 300]])
                    io.array2hdr(a, "r.hdr")
                    read_all("r.hdr", a.astype("f4").astype(float), "range grey")
                    c = np.array([a, a[::-1], a[:, ::-1] * .3])
                    io.carray2hdr(c, "r.hdr")
                    read_all("r.hdr", c.astype("f4").astype(float), "range colour")
                ctx.run(["magnitude", m, f], go)

        def neg():
            a = np.array([[-1., 2, 0], [3, -5, 1e-3]])
            io.array2hdr(a, "r.hdr")
            g = io.hdr2array("r.hdr")
            check(g[a <= 0] == 0, "negative pixel not zero")
            rgbe_close(g, a, "positive pixels beside negative ones")
        ctx.run(["negative"], neg)


def g_layout(ctx):
    with scratch():
        for ch in (1, 3):
            for s in ((2, 3), (5, 2), (9, 4), (1, 4), (4, 1)):
                a = coded(s, ch) if ch == 1 else coded(s, 3)
                ints = np.round(a * 8)
                big = np.zeros([2 * k for k in a.shape])
                big[tuple(slice(None, None, 2) for _ in a.shape)] = a
                ro = a.copy()
                ro.flags.writeable = False
                forms = dict(f4=a.astype("f4"), f8=a, F=np.asfortranarray(a),
                             T=np.ascontiguousarray(a.T).T, flip=np.ascontiguousarray(a[..., ::-1])[..., ::-1],
                             strided=big[tuple(slice(None, None, 2) for _ in a.shape)], ro=ro,
                             i8=ints.astype("i8"), u1=ints.astype("u1"), i2=ints.astype("i2"),
                             bigendian=a.astype(">f8"), big4=a.astype(">f4"), i4=ints.astype("i4"), u4=ints.astype("u4"), bi4=ints.astype(">i4"), u2=ints.astype("u2"), u8=ints.astype("u8"), long=a.astype("g"), half=a.astype("f2"), bool=a > 4)
                for k, v in forms.items():
                    def go():
                        w = io.array2hdr if ch == 1 else io.carray2hdr
                        w(v, "l.hdr")
                        read_all("l.hdr", v.astype(float), k)
                        # again over an existing, longer file and with a header
                        io.array2hdr(coded((20, 20), 1), "l.hdr", header=["X" * 500])
                        w(v, "l.hdr", header=["a=b", "c"])
                        read_all("l.hdr", v.astype(float), k + " overwriting")
                        w(v, "l.hdr", header=["a=b", "\tc:", "\t\tx"], clean=True)
                        read_all("l.hdr", v.astype(float), k + " cleaned header")
                    ctx.run(["layout", ch, s, k], go)


def g_names(ctx):
    with scratch() as d:
        os.mkdir("sub dir")
        a, c = coded((3, 2), 1), coded((3, 2), 3)
        for n in ("plain.hdr", "two words.hdr", "it's.hdr", 'quo"te.hdr', "semi;colon&.hdr", "sub dir/x.hdr", "noext",
                  "$HOME.hdr", "star*.hdr", "é.hdr", "back\\slash.hdr", os.path.join(d, "abs path.hdr"), "./rel.hdr"):
            def go():
                io.array2hdr(a, n, header=["k=v"])
                check(os.path.isfile(n), "file not created under its name")
                read_all(n, a, "grey")
                img, h = io.hdr2array(n, header=True)
                check(any(i.strip() == "k=v" for i in h), "header with the pixels")
                rgbe_close(img, a, "grey with header")
                io.carray2hdr(c, n, header=["k=v"])
                read_all(n, c, "colour")
                img, h = io.hdr2carray(n, header=True)
                check(any(i.strip() == "k=v" for i in h), "header with the pixels")
                rgbe_close(img, c, "colour with header")
            ctx.run(["name", n.replace(d, "<scratch>")], go)
        for s in ((3, 2), (1, 1), (9, 3)):
            for ch in (1, 3):
                def std():
                    v = coded(s, ch)
                    w = io.array2hdr if ch == 1 else io.carray2hdr
                    w(v, "f.hdr", header=["k=v"])
                    with captured() as box:
                        check(w(v, None, header=["k=v"]) is None, "no name for standard output")
                    same(np.frombuffer(box["out"], "u1"), np.frombuffer(open("f.hdr", "rb").read(), "u1"),
                         "standard output differs from the file")
                    with captured() as box:
                        w(v, None)
                    open("g.hdr", "wb").write(box["out"])
                    read_all("g.hdr", v, "standard output without header")
                    for fn in (io.hdr2array, io.hdr2carray):
                        with open("f.hdr", "rb") as f:
                            same(fn("", stdin=f), fn("f.hdr"), "read from standard input")
                ctx.run(["stdio", s, ch], std)


def g_twice(ctx):
    """writing what was read back is stable: the second generation is
    identical to the first"""
    with scratch():
        for s in ((4, 3), (8, 2), (2, 17), (130, 2)):
            for ch in (1, 3):
                def go():
                    v = coded(s, ch)
                    io.array2hdr(v, "0.hdr")
                    x = io.hdr2carray("0.hdr")
                    io.carray2hdr(x, "1.hdr")
                    y = io.hdr2carray("1.hdr")
                    same(y, x, "second generation differs")
                ctx.run(["twice", s, ch], go)


def groups(tier):
    q = tier == "quick"
    top = 9 if q else 16
    shapes = list(itertools.product(range(1, top + 1), repeat=2))
    rle = [7, 8, 9, 16, 40, 127, 128, 129, 130, 255, 256, 257] if q else list(range(1, 140)) + [255, 256, 257, 300, 512, 1000]
    wide = [(w, h) for w in rle for h in ((1, 2, 3) if q else (1, 2, 3, 9))] + [(h, w) for w in rle[::2] for h in (1, 2)]
    g = []
    for ch in (1, 3):
        g += [(f"shapes{ch}-{k}", g_shapes, (shapes + wide)[k::3], ch) for k in range(3)]
        g.append((f"impulse{ch}", g_impulse, 4 if q else 6, ch))
    return g + [("range", g_range, 4 if q else 1), ("layout", g_layout), ("names", g_names), ("twice", g_twice)]
