"""Every list of up to three images (with repetition) over an alphabet of different content, resolution and kind of file x supplied illuminances (none, all, some) x model options x save settings (off, next to the image, other suffix, existing and new output
folder, images in sub folders, absolute paths, names with dots and without an extension) x worker caps: scores must equal, in order, those of computing each image alone in a new model object of a pristine process, saved files must be exactly the
expected ones with the response a single computation saves. Every completion order of three images for every worker cap (a controller releases the computations one by one, all started before any ends) gives the same result. A missing image is an error."""
import itertools
import os

import numpy as np

from checks.c44 import image
from mc import sched
from mc.core import check, close, fail, same, scratch
from mc.interleave import Pristine
from raytools import io
from raytools.evaluate import hvsgsm
from raytools.evaluate.hvsgsm import GSS, gss_compute

RULE = "one case per (list of images, illuminances, options, save settings, cap) or schedule; all non-trivial"

NAMES = {"a": ("a.hdr", 1, 20), "b": ("sub/b.x.hdr", 2, 20), "c": ("sub.d/c", 3, 27), "d": ("./d.HDR", 4, 14), "e": ("ABS/e.hdr", 2, 14)}
OPTIONS = [dict(), dict(age=65, pigmentation=.16), dict(psf=False, adaptmove=False), dict(raw=True, scale=100), dict(directmove=False, f=20., fwidth=12)]


def path(n):
    p = NAMES[n][0]
    return p.replace("ABS", os.path.join(os.getcwd(), "abs"))


def setup():
    for d in ("sub", "sub.d", "abs", "there"):
        os.mkdir(d)
    for n, (p, kind, res) in NAMES.items():
        io.array2hdr(image(kind, res), path(n))


def tree():
    return sorted(os.path.join(d, f) for d, _, fs in os.walk(".") for f in fs)


def folders():
    return sorted(os.path.join(d, x) for d, ds, _ in os.walk(".") for x in ds)


class Alone:
    """score and saved response of one image computed alone, in a process of its own"""

    def __init__(self):
        self.memo = {}

        def one(k):
            n, ev, o = k
            g = GSS(path(n), **OPTIONS[o])
            with np.errstate(all="ignore"):
                s = g.compute(save="alone.hdr", ev_eye=ev)
            a = io.hdr2carray("alone.hdr")
            os.remove("alone.hdr")
            return float(s), a
        self.pristine = Pristine(one)

    def __call__(self, n, ev, o):
        k = n, ev, o
        if k not in self.memo:
            self.memo[k] = self.pristine(k)
        return self.memo[k]


def target(p, outdir, suffix):
    stem = p[:-4] if p.lower().endswith(".hdr") else p
    if outdir is not None:
        stem = outdir + "/" + stem.split("/")[-1]
    return os.path.relpath(stem + suffix)


def case(alone, lst, evs, o, save, suffix, outdir, cap):
    before, dirs = tree(), folders()
    imgs = [path(n) for n in lst]
    kw = dict(OPTIONS[o])
    if save:
        kw["save"] = True
    if suffix is not None:
        kw["suffix"] = suffix
    if outdir is not None:
        kw["outdir"] = outdir
    if cap is None:
        os.environ.pop("RAYTOOLS_PROC_CAP", None)
    else:
        os.environ["RAYTOOLS_PROC_CAP"] = str(cap)
    new = []
    try:
        given = list(imgs)
        r = gss_compute(imgs, evs, **kw)
        same(len(r), len(lst), "number of scores")
        close(r, [alone(n, None if evs is None else evs[i], o)[0] for i, n in enumerate(lst)], 1e-12, 1e-9, "scores")
        check(imgs == given, "list of images changed")
        new = sorted(set(tree()) - set(before))
        want = {}
        if save:
            for i, n in enumerate(lst):
                want.setdefault("./" + target(path(n), outdir, suffix or "_rg.hdr"), []).append(alone(n, None if evs is None else evs[i], o)[1])
        check(new == sorted(want), f"files written: {new}, expected {sorted(want)}")
        for p, arrs in want.items():
            a = io.hdr2carray(p)
            if not any(a.shape == b.shape and np.array_equal(a, b) for b in arrs):
                fail(f"{p} does not hold the response of its image")
    finally:
        for p in set(tree()) - set(before):
            os.remove(p)
        for d in sorted(set(folders()) - set(dirs), reverse=True):
            os.rmdir(d)


def g_lists(ctx, part, parts, tier):
    with scratch():
        setup()
        alone = Alone()
        j = 0
        top = 3
        for k in range(1, top + 1):
            for lst in itertools.product("abcd" if k == 3 else "abcde", repeat=k):
                for ill in range(3):
                    evs = None if ill == 0 else [400. + 333 * i for i in range(k)] if ill == 1 else [None if i % 2 == len(lst) % 2 else 5000. + 10 * i for i in range(k)]
                    for save in (False, True):
                        j += 1
                        if j % parts != part:
                            continue
                        if k == 3 and tier == "quick" and (j // parts) % 3:
                            continue
                        cap = (None, 1, 2, 3)[(j // parts) % 4]
                        o = (j // parts // 4) % len(OPTIONS)
                        if len(set(lst)) < k and save and ill:
                            continue  # two processes would write different content to one file
                        ctx.run((lst, ill, o, save, cap), case, alone, lst, evs, o, save, None, None, cap)


def g_save(ctx, part, parts):
    with scratch():
        setup()
        alone = Alone()
        j = 0
        for lst in [("a",), ("c",), ("e",), ("b", "c"), ("d", "e"), ("c", "a", "b"), ("a", "d", "e"), ("e", "c", "b", "d", "a")]:
            for suffix in (None, "_rg.hdr", "_x.hdr", ".resp.hdr"):
                for outdir in (None, "there", "new", "there/", os.path.join(os.getcwd(), "made"), "."):
                    for save in (True, False):
                        for cap in (None, 1):
                            j += 1
                            if j % parts == part:
                                ctx.run((lst, suffix, outdir and outdir.replace(os.getcwd(), ""), save, cap), case, alone, lst, None, j % len(OPTIONS), save, suffix, outdir, cap)


def g_options(ctx):
    with scratch():
        setup()
        alone = Alone()
        for o in range(len(OPTIONS)):
            for lst in itertools.permutations("abc"):
                for evs in (None, np.array([300., 2500., 900.]), (None, 700., None), [1, 20000, 50]):
                    ev2 = None if evs is None else list(evs)
                    ctx.run((o, lst, ev2), case, alone, lst, ev2, o, False, None, None, 2)
                if OPTIONS[o].get("directmove") is False:
                    # in the dark
                    for ev2 in ([0., 500., 0], [None, 0, 1e-3], [0., None, None]):
                        ctx.run((o, lst, ev2), case, alone, lst, ev2, o, False, None, None, 2)
        # missing images
        for lst in (("a", "nope.hdr"), ("a", "b", "sub/nope.hdr"), ("nope.hdr", "a")):
            def missing():
                try:
                    r = gss_compute([path(n) if n in NAMES else n for n in lst])
                except (ValueError, OSError):
                    return
                fail(f"scores {r} although an image is missing")
            ctx.run(("missing", lst), missing)


def g_orders(ctx, lst, width):
    """every order in which the computations can end"""
    with scratch():
        setup()
        alone = Alone()
        evs = [None, 640., 8000.]
        want = [alone(n, e, 0)[0] for n, e in zip(lst, evs)]
        os.environ["RAYTOOLS_PROC_CAP"] = str(width)
        real = GSS.compute
        tops = {}
        for i, n in enumerate(lst):
            g = GSS(path(n))
            tops[round(float(g.lum.max()), 3)] = i

        def visit(choices):
            out = {}

            def one():
                def call(work):
                    def compute(self, *a, **kw):
                        i = tops[round(float(self.lum.max()), 3)]
                        fd = os.open(os.path.join(work, "log"), os.O_WRONLY | os.O_APPEND | os.O_CREAT)
                        os.write(fd, f'[{i}, {os.getpid()}, "", ""]\n'.encode())
                        os.close(fd)
                        with open(os.path.join(work, f"gate{i}")) as f:
                            f.read()
                        return real(self, *a, **kw)
                    GSS.compute = compute
                    try:
                        return gss_compute([path(n) for n in lst], evs)
                    finally:
                        GSS.compute = real
                (kind, r), rep, log = sched.run(len(lst), width, choices, call)
                out["opts"] = rep["opts"]
                if kind == "error":
                    raise r
                close(r, want, 1e-12, 1e-9, f"scores when the computations end in the order {rep['order']}")
                ctx.state((lst, width, tuple(rep["order"])))
                ctx.trans(len(rep["order"]))
            ctx.run((lst, width, choices), one)
            return out.get("opts")
        sched.explore(visit)


def groups(tier):
    q = tier == "quick"
    parts = 6 if q else 16
    g = [(f"lists {p}", g_lists, p, parts, tier) for p in range(parts)]
    g += [(f"save {p}", g_save, p, 4) for p in range(4)]
    g += [("options", g_options)]
    for lst in (("a", "c", "d"), ("d", "b", "a")) if q else itertools.permutations("abcd", 3):
        for w in (1, 2, 3):
            g.append((f"orders {''.join(lst)} {w}", g_orders, tuple(lst), w))
    return g
