"""Fault injection at every crash point: images of all sizes of a lattice (flat and run-length encoded scanlines, with and
without headers) are cut off after every single byte 0..length-1 and read through every reader; each must raise, and an intact
file read right after must be complete. All listed foreign files (empty, text, binary, directory, wrong magic) and missing paths
are read through every reader. Header reading is explored over the same cuts: it may only return lines of the full header."""
import os

import numpy as np

from mc.core import check, raises, same, scratch
from raytools import io

RULE = "one case per (image, cut position, reader) or (foreign file, reader)"
VL = (0.2, 0.7, 0.1)
READERS = [("grey", lambda f: io.hdr2array(f)), ("colour", lambda f: io.hdr2carray(f)),
           ("weighted", lambda f: io.hdr2array(f, vlambda=VL)),
           ("grey+h", lambda f: io.hdr2array(f, header=True)), ("colour+h", lambda f: io.hdr2carray(f, header=True))]
BAD = (ValueError, OSError, EOFError, IndexError)


def image(w, h, ch, seed):
    i = np.arange(w * h * 3).reshape(3, w, h)
    a = ((i * 7 + seed) % 11 + 1) * .5
    return a[0] if ch == 1 else a


def stdin_reader(f, col):
    with open(f, "rb") as fh:
        return io.hdr2carray("", stdin=fh) if col else io.hdr2array("", stdin=fh)


def g_cut(ctx, w, h, ch, hdr, readers):
    with scratch():
        a = image(w, h, ch, 1)
        io.array2hdr(a, "ok.hdr", header=hdr)
        data = open("ok.hdr", "rb").read()
        full = io.hdr2carray("ok.hdr")
        check(full.shape == (3, w, h), "intact image")
        hl = io.hdr_header("ok.hdr")
        for n in range(len(data)):
            with open("cut.hdr", "wb") as f:
                f.write(data[:n])
            for name, rd in READERS[:readers]:
                ctx.run([w, h, ch, bool(hdr), n, name], raises, BAD, rd, "cut.hdr")
            if readers > 2:
                for col in (0, 1):
                    ctx.run([w, h, ch, bool(hdr), n, "stdin", col], raises, BAD, stdin_reader, "cut.hdr", col)
            if n % 16 == 0:
                ctx.run([w, h, ch, n, "intact"], lambda: same(io.hdr2carray("ok.hdr"), full, "intact image after a failed read"))

            def head():
                try:
                    got = io.hdr_header("cut.hdr")
                except OSError:
                    return
                body = [x.replace("ok.hdr", "cut.hdr") for x in hl]
                check(len(got) <= len(body), f"more lines than the header {got!r}")
                for i, x in enumerate(got):
                    check(x == body[i] or (i == len(got) - 1 and body[i].startswith(x)), f"header line {x!r}")
            if n % 4 == 0:
                ctx.run([w, h, ch, bool(hdr), n, "header"], head)


def g_foreign(ctx):
    with scratch():
        io.array2hdr(image(4, 3, 3, 2), "ok.hdr", header=["A=b"])
        ok = open("ok.hdr", "rb").read()
        os.mkdir("folder.hdr")
        files = {"empty.hdr": b"", "text.hdr": b"hello world\n1 2 3\n", "bin.hdr": bytes(range(256)) * 4,
                 "tif.hdr": b"II*\0" + bytes(200), "magic.hdr": b"#?RADIANT" + ok[10:], "short.hdr": b"#?RADIANCE",
                 "nores.hdr": b"#?RADIANCE\nFORMAT=32-bit_rle_rgbe\n\n", "fmt.hdr": ok.replace(b"32-bit_rle_rgbe", b"ascii_rgbe_xxxx"),
                 "nul.hdr": bytes(64), "a b.hdr": b"x", "it's.hdr": b"y", "res.hdr": b"#?RADIANCE\nFORMAT=32-bit_rle_rgbe\n\n-Y 2 +X 2\n"}
        for n, d in files.items():
            with open(n, "wb") as f:
                f.write(d)
        miss = ["none.hdr", "a b none.hdr", "no folder/x.hdr", "it's none.hdr", "none (1).hdr"]
        for n in list(files) + ["folder.hdr"]:
            for name, rd in READERS:
                if n == "magic.hdr":  # any "#?" program name is a valid picture
                    continue
                ctx.run([n, name], raises, BAD, rd, n)
            ctx.run([n, "is_hdr"], lambda: check(os.path.isdir(n) or bool(io.is_hdr(n)) == files[n].startswith(b"#?RADIANCE"), "is_hdr"))
        for n in ("text.hdr", "bin.hdr", "tif.hdr", "folder.hdr", "nul.hdr", "a b.hdr", "it's.hdr"):
            ctx.run([n, "header"], raises, OSError, io.hdr_header, n)
            ctx.run([n, "clean"], raises, OSError, io.hdr_header, n, True)
            ctx.run([n, "items"], raises, OSError, io.hdr_header, n, False, ["EXPOSURE"])
        ctx.run(["ok", "is_hdr"], lambda: check(io.is_hdr("ok.hdr"), "is_hdr of an image"))
        for n in miss:
            for name, rd in READERS:
                def go():
                    e = raises(BAD, rd, n)
                    check("not found" in str(e) or isinstance(e, FileNotFoundError), f"missing file reported as {e!r}")
                ctx.run([n, name], go)
            ctx.run([n, "header"], raises, FileNotFoundError, io.hdr_header, n)
            ctx.run([n, "clean"], raises, FileNotFoundError, io.hdr_header, n, True)
            ctx.run([n, "is_hdr"], raises, OSError, io.is_hdr, n)
        # histories: a stale result must never be returned
        names = ["ok.hdr", "none.hdr", "text.hdr", "cut.hdr", "gone.hdr"]
        with open("cut.hdr", "wb") as f:
            f.write(ok[:-3])
        ref = io.hdr2carray("ok.hdr")
        import itertools
        for seq in itertools.product(names, repeat=3):
            def hist():
                io.array2hdr(image(4, 3, 3, 2), "gone.hdr")
                io.hdr2carray("gone.hdr")
                os.remove("gone.hdr")
                for n in seq:
                    ctx.trans()
                    if n == "ok.hdr":
                        same(io.hdr2carray(n), ref, "intact image")
                    else:
                        raises(BAD, io.hdr2carray, n)
            ctx.run(["history", seq], hist)


def groups(tier):
    q = tier == "quick"
    H = ["EXPOSURE=2", "VIEW= -vta -vv 180 -vh 180", "note it's"]
    g = [("foreign", g_foreign)]
    sizes = [(3, 2, 1, None), (4, 3, 3, H), (9, 3, 3, None), (16, 2, 1, H), (1, 1, 3, None), (2, 5, 3, H)]
    if not q:
        sizes += [(w, h, c, H if (w + h) % 2 else None) for w in (1, 2, 7, 8, 9, 17, 33) for h in (1, 2, 3, 9) for c in (1, 3)]
        sizes = list(dict.fromkeys((w, h, c, tuple(x) if x else None) for w, h, c, x in sizes))
    for w, h, c, x in sizes:
        g.append((f"cut{w}x{h}x{c}", g_cut, w, h, c, list(x) if x else None, 5 if not q else 3))
    return g
