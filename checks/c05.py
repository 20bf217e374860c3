"""All shapes up to 3 dimensions of size <= 3 (quick) / 4 x dtype codes x memory layouts are encoded and decoded in memory and
through files; all write/append histories up to length 3 / 4 over those payloads are replayed against a reference list of values;
text files are enumerated over an alphabet of lines (numbers in every notation, comments, blanks, ragged and unparseable tokens)
up to 3 lines and compared with a separate parser; every kind of wrong argument is tried."""
import io as pyio
import itertools
import os
import pathlib
import struct

import numpy as np

from mc.core import check, raises, same, scratch
from raytools import io

RULE = "one case per (shape, dtype, layout), write history or text file; non-trivial: at least one value"
CODES = {"<f": "<f", ">f": ">f", "<d": "<d", ">d": ">d", "f": "=f", "d": "=d", "<i2": "<h", ">i2": ">h", "<i4": "<i",
         ">u4": ">I", "u1": "<B", "<i8": "<q", "<f2": "<e", "|b1": "<?"}


def layouts(a):
    yield "c", np.ascontiguousarray(a)
    yield "f", np.asfortranarray(a)
    yield "rev", np.ascontiguousarray(a[::-1])[::-1]
    big = np.zeros([2 * s for s in a.shape], a.dtype)
    sl = tuple(slice(None, None, 2) for _ in a.shape)
    big[sl] = a
    yield "strided", big[sl]
    yield "t", np.ascontiguousarray(a.T).T
    yield "swap", a.astype(a.dtype.newbyteorder())
    ro = a.copy()
    ro.flags.writeable = False
    yield "readonly", ro


def values(shape, code, k=0):
    n = int(np.prod(shape))
    v = [((i * 37 + k * 11) % 100) for i in range(n)]
    if CODES[code][1] in "fde":
        v = [x * .25 - 7 for x in v]
    elif CODES[code][1] in "hiq":
        v = [x - 40 for x in v]
    elif CODES[code][1] == "?":
        v = [bool(x % 2) for x in v]
    return v


def verify(shape, code):
    v = values(shape, code)
    raw = struct.pack(CODES[code][0] + CODES[code][1] * len(v), *v)
    src = np.array(v, dtype=float if CODES[code][1] in "fde" else int).reshape(shape)
    ref = src.astype(np.dtype(code))
    for name, a in layouts(src):
        b = io.np2bytes(a, code)
        check(b == raw, f"{name}: bytes {b.hex()[:80]} instead of {raw.hex()[:80]}")
        same(a, src, f"{name}: input")
        same(io.bytes2np(b, shape, code), ref, f"{name}: decoded")
        same(io.bytes2np(bytearray(b), shape, code), ref, f"{name}: decoded buffer")
        same(io.bytefile2np(pyio.BytesIO(b), shape, code), ref, f"{name}: decoded from a stream")
        io.np2bytefile(a, "f.bin", code)
        with open("f.bin", "rb") as f:
            same(io.bytefile2np(f, shape, code), ref, f"{name}: decoded file")
        if len(v):
            for ax in range(len(shape)):
                sh = list(shape)
                sh[ax] = -1
                same(io.bytes2np(b, tuple(sh), code), ref, f"{name}: open axis {ax}")
    if code == "<f":
        check(io.np2bytes(src) == raw, "default code")
        same(io.bytes2np(raw, shape), ref, "default code")
    if len(v):
        raises(ValueError, io.bytes2np, raw[:-1], shape, code)
        raises(ValueError, io.bytes2np, raw + raw, shape, code)


def g_shapes(ctx, m):
    with scratch():
        for nd in (1, 2, 3):
            for shape in itertools.product(range(1, m + 1), repeat=nd):
                for code in CODES:
                    ctx.run([shape, code], verify, shape, code)


def g_history(ctx, n):
    pay = [((2,), 0), ((2, 3), 1), ((1, 1, 3), 2)]
    with scratch():
        for k in range(1, n + 1):
            for hist in itertools.product(list(itertools.product(range(3), ("wb", "ab"))), repeat=k):
                for code in ("<f", ">i2"):
                    def go():
                        if os.path.exists("h.bin"):
                            os.remove("h.bin")
                        ref = []
                        for p, mode in hist:
                            v = values(pay[p][0], code, pay[p][1])
                            ref = v if mode == "wb" else ref + v
                            a = np.array(v, float if code == "<f" else int).reshape(pay[p][0])
                            io.np2bytefile(a, "h.bin", code, mode=mode)
                            ctx.trans()
                            ctx.state((code, tuple(ref)))
                            with open("h.bin", "rb") as f:
                                same(io.bytefile2np(f, (-1,), code), np.array(ref, dtype=code), "file content")
                                # at the end of the stream nothing is left
                                check(f.read() == b"", "stream not consumed")
                    ctx.run([hist, code], go)


LINES = ["1", "1 2", "-2.5 3e-2", "\t4\t+5 ", "nan inf", "1e400 -0", "", "   ", "# note", "6 # note", "7 8 # 9", "x", "1 x", "1,2", "1_0", "0x10", "1 2 3", "é"]


def parse(lines, delim=None):
    rows = []
    for x in lines:
        x = x.split("#")[0]
        t = [i.strip() for i in x.split(delim)] if delim else x.split()
        if not (x if delim else x.strip()):
            continue
        try:
            for i in t:
                if "_" in i:
                    raise ValueError
            rows.append([float(i) for i in t])
        except ValueError:
            return None
    if len({len(r) for r in rows}) > 1:
        return None
    return rows


def g_text(ctx, n):
    with scratch():
        for k in range(0, n + 1):
            for ls in itertools.product(LINES if k < 3 else LINES[:14], repeat=k):
                for delim in (None, ","):
                    if delim and k > 2:
                        continue

                    def go():
                        text = "\n".join(ls) + "\n"
                        with open("t.txt", "w") as f:
                            f.write(text)
                        ref = parse(ls, delim)
                        kw = dict(delimiter=delim) if delim else {}
                        if ref is None:
                            raises(ValueError, io.load_txt, "t.txt", **kw)
                            return
                        got = io.load_txt("t.txt", **kw)
                        check(np.array_equal(np.ravel(got), np.ravel(ref), equal_nan=True), f"{got!r} instead of {ref!r}")
                        if ref:
                            same(np.isnan(io.load_txt(b"t.txt", ndmin=2, **kw)), np.isnan(np.array(ref)), "2-d")
                            check(io.load_txt("t.txt", ndmin=2, **kw).shape == np.array(ref).shape, "shape")
                        with open("t.txt") as f:
                            check(f.read() == text, "file changed")
                    ctx.run([ls, delim], go)

        for nm in ("a", "sub dir.txt", "é.txt", "naïve file", "数.dat", "-x", "1", "a#b", "t.txt.gz.txt", "ab\u0308"):
            for ls in (["1 2", "3 4"], ["5"], ["# c", "-1e3 nan"]):
                def named():
                    with open(nm, "w") as f:
                        f.write("\n".join(ls) + "\n")
                    e = np.array(parse(ls))
                    for p in (nm, nm.encode(), os.path.abspath(nm), os.path.abspath(nm).encode()):
                        check(np.array_equal(io.load_txt(p, ndmin=2), e, equal_nan=True), f"{p!r} read differently")
                    os.remove(nm)
                    for p in (nm, nm.encode()):
                        raises(FileNotFoundError, io.load_txt, p)
                ctx.run(["name", nm, ls], named)

        def wrong():
            with open("t.txt", "w") as f:
                f.write("1 2\n")
            for a in (1, 1.5, None, [1, 2], np.arange(3), ("t.txt",), ["t.txt"], pyio.StringIO("1 2"), {}, object(), pathlib.PurePath):
                raises(TypeError, io.load_txt, a)
            os.mkdir("dir")
            for a in ("none.txt", b"none.txt", "", "dir", "dir/t.txt", "t.txt/x", "1 2", "t.txt\n"):
                raises(FileNotFoundError, io.load_txt, a)
        ctx.run(["wrong arguments"], wrong)


def groups(tier):
    q = tier == "quick"
    return [("shapes", g_shapes, 3 if q else 4), ("history", g_history, 3 if q else 4), ("text", g_text, 3)]
