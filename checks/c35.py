"""Every command is run in process (and once each as a program of its own) on scratch folders. metric: every sequence of up to three images over an alphabet with different content, size, view, header weights, for
every option value and every pair of options, every metric alone and ordered lists, parallel, serial and with worker caps (the number of processes started is watched); the printed table must name images and metrics in order with the library's
values. project, align, solid2ang, cleanheader: every option combination with one to three images and standard output on and off; all files and output bytes must be those of the library calls in another
folder. smooth: every column choice, grid, width and factor on small data files. Failing input names or metrics end without a result."""
import itertools
import os
import shutil
import subprocess
import sys

import numpy as np

from mc.core import REPO, captured, check, close, same, scratch
from checks.c31 import image
from raytools import cli, imagetools, io, translate
from raytools.evaluate import hvsgsm
from raytools.mapper import ViewMapper

RULE = "one case per command line; all non-trivial"

ALL = ["illum", "irradiance", "avglum", "gcr", "ugp", "dgp", "tasklum", "backlum", "dgp_t1", "log_gc", "dgp_t2", "ugr", "threshold", "pwsl2", "view_area", "backlum_true",
       "srcillum", "srcarea", "maxlum", "loggcr", "pwgcr", "logpwgcr", "density", "avgraylum", "pwavglum"]


def run(args):
    """(standard output, exception or None)"""
    env = os.environ.get("RAYTOOLS_PROC_CAP")
    err = None
    dn = os.open(os.devnull, os.O_WRONLY)
    old = os.dup(2)
    os.dup2(dn, 2)
    try:
        with captured() as box:
            try:
                cli.main([str(i) for i in args], standalone_mode=False)
            except (SystemExit, Exception) as e:
                err = e
    finally:
        os.dup2(old, 2)
        os.close(old)
        os.close(dn)
        os.environ.pop("RAYTOOLS_PROC_CAP", None)
        if env is not None:
            os.environ["RAYTOOLS_PROC_CAP"] = env
    return box["out"], err


def scene(name, res, view, head, seed, peak=True, color=True, kind="square"):
    x = res * (2 if view and view[1] == 360 else 1)
    k = np.arange(x * res).reshape(x, res)
    a = ((k * 7919 + seed * 131) % 97 + 8) / 32.
    if peak:
        a[x // 2, res // 2 + 1] = 900. + seed
        a[x // 2 - 1, res // 2 + 1] = 300.
        a[x // 2, res // 2] = 20 + seed
    c = np.stack((a * 1.5, a, a * np.where(k % 3, .25, 2.)))
    h = []
    if head:
        h.append("LuminanceRGB= " + " ".join(map(str, head)))
    if view:
        h.append(ViewMapper(*view).header())
    (io.carray2hdr if color else io.array2hdr)(c if color else a, name, h)


def images():
    scene("a.hdr", 8, ((0, 1, 0), 180), None, 0)
    scene("b.hdr", 11, ((1, 1, .2), 180), (.2, .7, .1), 1)
    scene("c.hdr", 6, None, None, 2, peak=False, color=False)
    for n, va in (("s.hdr", 4), ("t.hdr", 10)):
        a = np.full((40, 40), 2.)
        a[18:21, 23:26] = 2e3
        io.array2hdr(a, n, [ViewMapper((0, 1, 0), va).header()])
    return ["a.hdr", "b.hdr", "c.hdr"]


DEF = dict(peakn=True, peaka=6.7967e-05, peakt=1e5, peakr=4., threshold=2000., scale=179., lumrgb=None, blursun=False, lowlight=False)
# command line, library option
OPTS = [([], {}), (["--no-peakn"], dict(peakn=False)), (["-peaka", "1e-3"], dict(peaka=1e-3)), (["-peaka", ".05", "-peakt", "2e4"], dict(peaka=.05, peakt=2e4)), (["-peaka", ".2", "-peakt", "2e4", "-peakr", "1.5"], dict(peaka=.2, peakt=2e4, peakr=1.5)), (["-threshold", "4"], dict(threshold=4.)),
        (["-threshold", "900"], dict(threshold=900.)), (["-scale", "100"], dict(scale=100.)), (["-lumrgb", "0.1 0.2 0.7"], dict(lumrgb=[.1, .2, .7])), (["--blursun"], dict(blursun=True)),
        (["--lowlight", "-scale", ".5"], dict(lowlight=True, scale=.5)), (["--lowlight"], dict(lowlight=True)), (["-peaka", ".2", "-peakt", "3e3"], dict(peaka=.2, peakt=3e3))]


def table(out):
    return [r.split("\t") for r in out.decode().splitlines()]


def verify(imgs, metrics, args, opts, pre=(), given=True):
    cmd = [*pre, "metric", " ".join(imgs) if len(imgs) < 4 else imgs]
    if given:
        cmd += ["-metrics", " ".join(metrics)]
    out, err = run([*cmd, *args])
    check(err is None, f"{type(err).__name__}: {err}")
    o = {**DEF, **opts}
    t = table(out)
    check(len(t) == len(imgs) + 1, f"{len(t)} lines for {len(imgs)} images")
    first = [m for m in metrics if m not in ("gss", "gssnb")]
    last = [m for m in ("gss", "gssnb") if m in metrics]
    check(t[0] == ["image"] + first + last, f"heading {t[0]}")
    for row, f in zip(t[1:], imgs):
        check(row[0] == f, f"image {row[0]!r} instead of {f!r}")
        want = []
        with np.errstate(all="ignore"):
            if first:
                want += list(imagetools.imgmetric(f, list(first), **o))
            for m in last:
                want.append(hvsgsm.gss_compute([f], **({} if m == "gss" else dict(psf=False, adaptmove=False, directmove=False)))[0])
        check(len(row) - 1 == len(want), f"{len(row) - 1} values for {f}, expected {len(want)}")
        close([float(i) for i in row[1:]], want, 1e-12, 2e-5, f"values of {f} ({metrics}, {args})")


def g_metric(ctx, part, parts):
    with scratch():
        im = images()
        n = 0

        def case(*a, **k):
            nonlocal n
            n += 1
            if n % parts == part:
                ctx.run([*a, k], verify, *a, **k)
        seqs = [s for k in (1, 2, 3) for s in itertools.permutations(im, k)] + [("a.hdr", "a.hdr", "b.hdr")]
        for s in seqs:
            for args, opts in OPTS[:3] + OPTS[5:6] + OPTS[8:9]:
                for par in ("--parallel", "--no-parallel"):
                    case(s, ["illum", "dgp", "ugp"], [*args, par], opts)
        for (a1, o1), (a2, o2) in itertools.combinations(OPTS, 2):
            if not set(o1) & set(o2):
                case(("a.hdr", "b.hdr"), ["illum", "dgp", "ugp", "avglum", "srcarea"], a1 + a2, {**o1, **o2})
        for m in ALL:
            case(("b.hdr", "a.hdr"), [m], [], {})
            case(("b.hdr",), [m, "dgp"], [], {})
        for p in itertools.permutations(["illum", "irradiance", "gss", "dgp"]):
            case(("b.hdr", "a.hdr"), list(p), [], {})
        for p in (["gss"], ["gssnb"], ["gss", "gssnb"], ["gssnb", "illum", "gss"]):
            for s in (("a.hdr",), ("c.hdr", "a.hdr"), ("a.hdr", "c.hdr", "a.hdr")):
                for par in ("--parallel", "--no-parallel"):
                    case(s, p, [par], {})
            # eye movement and spread are visible in images of small view only
            for s in (("s.hdr",), ("t.hdr",), ("s.hdr", "s.hdr")):
                case(s, p, [], {})
        for thr in ("0.5", "0.999", "1", "1.5", "0.05", "99.9", "100", "100.5", "1e6"):
            for m in (["threshold", "srcarea"], ["dgp", "ugr", "tasklum"]):
                case(("a.hdr", "b.hdr", "c.hdr"), m, ["-threshold", thr], dict(threshold=float(thr)))
        for cap in (0, 1, 2, 5):
            for s in seqs[3:15]:
                case(s, ["illum", "dgp"], [], {}, pre=("-n", cap))
        for s in seqs[:6]:
            case(s, ["illum", "dgp", "ugp"], [], {}, given=False)


def g_effect(ctx):
    """each option matters for the images used"""
    with scratch():
        im = images()
        base = table(run(["metric", " ".join(im), "-metrics", " ".join(ALL)])[0])

        def go(args, base=base):
            if args[0] == "-peaka" and len(args) > 2:
                base = table(run(["metric", " ".join(im), "-metrics", " ".join(ALL), *args[:-2]])[0])
            t = table(run(["metric", " ".join(im), "-metrics", " ".join(ALL), *args])[0])
            check(len(t) == len(base) and t[0] == base[0], "table")
            check(t != base, "no effect on any image")
        for args, opts in OPTS[1:]:
            if args not in (["--blursun"], ["--lowlight"]):
                ctx.run(args, go, args)

        def bad(args):
            files = sorted(os.listdir("."))
            out, err = run(args)
            check(err is not None, "no error")
            check(b"a.hdr\t" not in out, "values printed")
            check(sorted(os.listdir(".")) == files, "files written")
        for args in (["metric", "none.hdr"], ["metric", "a.hdr", "-metrics", "bogus"], ["metric", "a.hdr none.hdr"], ["project", "none.hdr"], ["align", "none.hdr"], ["solid2ang", "none.hdr"], ["cleanheader", "none.hdr"],
                     ["smooth", "none.txt"], ["nocommand"]):
            ctx.run(["bad", args], bad, args)


def g_workers(ctx):
    """the number of processes follows the configured cap"""
    from concurrent.futures import process
    with scratch():
        im = images()
        real = process.ProcessPoolExecutor.__init__
        for pre, k in (([], 8), (["-n", "1"], 1), (["-n", "2"], 2), (["-n", "3"], 3), (["-n", "5"], 5)):
            for s in (im[:1], im[:2], im, im + im[:2]):
                for par in ("--parallel", "--no-parallel", None):
                    def go():
                        seen = []

                        def init(self, *a, **kw):
                            real(self, *a, **kw)
                            seen.append(self._max_workers)
                        process.ProcessPoolExecutor.__init__ = init
                        try:
                            out, err = run([*pre, "metric", " ".join(s), "-metrics", "illum avglum", *([par] if par else [])])
                        finally:
                            process.ProcessPoolExecutor.__init__ = real
                        check(err is None, f"{err}")
                        check(len(table(out)) == len(s) + 1, "table")
                        if par == "--no-parallel":
                            check(all(i == 1 for i in seen), f"{seen} processes although serial")
                        elif pre:
                            check(all(i <= k for i in seen), f"{seen} processes, allowed {k}")
                            check(len(s) == 1 or max(seen, default=1) >= min(k, len(s)), f"{seen} processes, allowed {k} for {len(s)} images")
                    ctx.run([pre, s, par], go)


def snapshot(d):
    return {f: open(os.path.join(d, f), "rb").read() for f in sorted(os.listdir(d))}


def differ(a, b):
    return [k for k in set(a) | set(b) if a.get(k) != b.get(k)]


def both(src, args, lib, pre=()):
    """run the command in one copy of the folder and the library call in another"""
    for d in ("cmd", "lib"):
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(src, d)
    here = os.getcwd()
    try:
        os.chdir("cmd")
        out, err = run([*pre, *args])
        os.chdir(here)
        check(err is None, f"{type(err).__name__}: {err}")
        os.chdir("lib")
        with captured() as box:
            lib()
        os.chdir(here)
    finally:
        os.chdir(here)
    check(out == box["out"], f"output {out[:80]!r}, expected {box['out'][:80]!r}")
    a, b = snapshot("cmd"), snapshot("lib")
    check(a == b, f"files differ: {differ(a, b)}")
    return len(set(b)) , len(out)


def g_files(ctx, part, parts):
    with scratch():
        os.mkdir("src")
        for i, (n, v, sh) in enumerate((("a.hdr", ((1, 2, 0), 180), (3, 6, 6)), ("b.hdr", None, (5, 5)), ("c.d.hdr", ((0, 1, 0), 120), (3, 4, 4)))):
            h = [f"line{i} x{i}", "EXPOSURE=2"] + ([ViewMapper(*v).header()] if v else [])
            (io.carray2hdr if len(sh) == 3 else io.array2hdr)(image(sh, i), os.path.join("src", n), h)
        for i, n in enumerate(("n.hdr", "m.hdr")):
            io.carray2hdr(image((3, 16, 16), 4 + i), os.path.join("src", n), [ViewMapper((i, 1, 0), 90 - 50 * i).header()])
        io.array2hdr(image((10, 5), 7), "src/w.hdr", [ViewMapper((0, 1, 0), 360).header()])
        n = 0
        names = ["a.hdr", "b.hdr", "c.d.hdr"]
        seqs = [[i] for i in names] + [["a.hdr", "b.hdr"], ["c.d.hdr", "a.hdr"], ["b.hdr", "c.d.hdr", "a.hdr"]]

        def case(s, name, args, fn, kw, single_stdout):
            nonlocal n
            n += 1
            if n % parts != part:
                return
            std = kw.get("stdout", False)
            pre = ([], ["-n", "1"], ["-n", "2"])[n % 3]

            def go():
                def lib():
                    for f in s:
                        k = dict(kw)
                        k["stdout"] = std and len(s) == 1
                        fn(f, **k)
                both("src", [name, " ".join(s), *args], lib, pre)
            ctx.run([s, name, args], go)
        for s in seqs + [["w.hdr"], ["n.hdr"], ["n.hdr", "m.hdr"], ["a.hdr", "n.hdr"]]:
            for uv, use, std in itertools.product((None, "--uv2ang", "--ang2uv"), (None, "--useview", "--no-useview"), (None, "--stdout", "--no-stdout")):
                if s == ["w.hdr"] and use == "--no-useview":
                    continue
                fn = imagetools.hdr_uv2ang if uv == "--uv2ang" else imagetools.hdr_ang2uv
                case(s, "project", [i for i in (uv, use, std) if i], fn, dict(useview=use != "--no-useview", stdout=std == "--stdout"), False)
        for s in seqs:
            for rot, c, first, near, std in itertools.product((None, "90", "-33.5"), (None, "2 1", "1 1 3 2"), (None, "--center-first", "--rotate-first"), (None, "--nearest"), (None, "--stdout")):
                if s != ["a.hdr"] and (rot == "90" or std and near):
                    continue
                args = (["-rotate", rot] if rot else []) + (["-center", c] if c else []) + [i for i in (first, near, std) if i]
                case(s, "align", args, imagetools.hdr_rotate, dict(rotate=float(rot or 0), center=[int(i) for i in c.split()] if c else None, rotate_first=first != "--center-first", nearest=bool(near), stdout=bool(std)), False)
            for rev, near, std, va in itertools.product((None, "--reverse", "--forward"), (None, "--nearest"), (None, "--stdout", "--no-stdout"), (None, "180", "100.5")):
                args = [i for i in (rev, near, std) if i] + (["-viewangle", va] if va else [])
                case(s, "solid2ang", args, imagetools.hdr_solid2ang, dict(reverse=rev == "--reverse", nearest=bool(near), viewangle=float(va) if va else None, stdout=std != "--no-stdout"), True)
        for f in names + ["w.hdr"]:
            def clean(f, **k):
                ar, h = io.hdr2carray(f, header=True)
                io.carray2hdr(ar, None, h, clean=True)
            case([f], "cleanheader", [], clean, {}, True)


def g_clean(ctx):
    """header cleaning of files with redundant headers keeps pixels and content"""
    with scratch():
        for k, head in enumerate((["x 1", "x 2", "x 1"], ["VIEW= -vta -vh 1", "VIEW= -vta -vh 2"], ["long " + " ".join(f"w{i}" for i in range(80))], ["a.hdr:", "\tx 1", "\tpvalue -r"])):
            for color in (False, True):
                def go():
                    a = image((3, 4, 5) if color else (4, 5), k)
                    (io.carray2hdr if color else io.array2hdr)(a, "x.hdr", head)
                    out, err = run(["cleanheader", "x.hdr"])
                    check(err is None, f"{err}")
                    with open("y.hdr", "wb") as f:
                        f.write(out)
                    # second writing of RGBE values keeps them
                    close(io.hdr2carray("y.hdr"), io.hdr2carray("x.hdr"), 1e-9, .01, "pixels")
                    with open("z.hdr", "wb"):
                        pass
                    io.carray2hdr(io.hdr2carray("x.hdr"), "z.hdr", io.hdr_header("x.hdr", clean=True))
                    check(out == open("z.hdr", "rb").read(), "output")
                ctx.run([head, color], go)


def g_smooth(ctx, part, parts):
    from scipy import stats
    data = {"a.txt": np.stack((np.arange(9) ** 1.3, np.arange(9) % 4, 3. - np.arange(9) ** .5), 1), "b.txt": np.array([3., 1, 4, 1, 5, 9, 2, 6]), "c.txt": np.array([[0., 5], [1, 2], [3, 3], [7, 1]]),
            "d.txt": np.stack((np.arange(7.), np.arange(7) % 3, np.arange(7) ** 2, 5. - np.arange(7), np.arange(7) % 2), 1)}
    with scratch():
        for n, d in data.items():
            np.savetxt(n, d)
        k = 0
        for n, d in data.items():
            d = d.reshape(len(d), -1)
            nc = d.shape[1]
            ys = [None] + [list(p) for j in (1, 2) for p in itertools.permutations(range(nc), j)] if nc < 4 else []
            ys += [list(p) for j in (3, 4, 5) for p in itertools.permutations(range(nc), j)][::1 if nc < 4 else 5] + [[1, 1, 2, 1]] * (nc > 2)
            for x, y, xo, sg, sf in itertools.product(range(nc), ys, (None, "5", "0.5 1 2.25", "3 1"), (None, ".7", "2"), (None, "0.5")):
                k += 1
                if k % parts != part or (xo is None and k % 7) or (nc > 3 and k // parts % 4):
                    continue
                args = ["smooth", n, "-x", x] + (["-y", " ".join(map(str, y))] if y else []) + (["-x_out", xo] if xo else []) + (["-sigma", sg] if sg else []) + (["-sf", sf] if sf else [])

                def go():
                    out, err = run(args)
                    check(err is None, f"{type(err).__name__}: {err}")
                    dx = d[:, x]
                    g = [float(i) for i in (xo or "1000").split()]
                    if len(g) == 1:
                        g = np.linspace(dx.min(), dx.max(), int(g[0]))
                    s = float(sg) if sg else np.std(dx, ddof=1) * len(dx) ** -.2
                    s *= float(sf or 1)
                    if y is None:
                        want = stats.gaussian_kde(dx, bw_method=s)(g)[None]
                    else:
                        want = translate.non_uniform_gaussian_filter(dx, d[:, y].T, np.asarray(g, float), sigma=s)
                    t = np.array([[float(i) for i in r.split()] for r in out.decode().splitlines()])
                    close(t, np.vstack((g, want)).T, 1e-9, 1e-6, "smoothed values")
                ctx.run(args, go)


def g_program(ctx):
    """each command as a program of its own"""
    env = dict(os.environ, PYTHONPATH=REPO)
    with scratch():
        images()
        np.savetxt("d.txt", np.array([[0., 5], [1, 2], [3, 3], [7, 1]]))
        for args in (["metric", "a.hdr b.hdr"], ["metric", "a.hdr", "-metrics", "illum gss", "--no-parallel"], ["project", "a.hdr", "--stdout"], ["align", "a.hdr", "-rotate", "30", "--stdout"],
                     ["solid2ang", "a.hdr"], ["cleanheader", "b.hdr"], ["smooth", "d.txt", "-y", "1", "-x_out", "4"], ["-n", "2", "metric", "a.hdr b.hdr c.hdr"]):
            def go():
                p = subprocess.run([sys.executable, "-c", "from raytools.cli import main; main()", *args], env=env, capture_output=True)
                check(p.returncode == 0, f"exit {p.returncode}: {p.stderr[-300:]}")
                out, err = run(args)
                check(err is None and out == p.stdout, f"output {p.stdout[:90]!r}, in process {out[:90]!r}")
            ctx.run(args, go)
        for args in (["metric", "a.hdr", "-metrics", "bogus"], ["metric", "none.hdr"]):
            def bad():
                p = subprocess.run([sys.executable, "-c", "from raytools.cli import main; main()", *args], env=env, capture_output=True)
                check(p.returncode != 0, "exit status 0")
                check(b"a.hdr\t" not in p.stdout, "values printed")
            ctx.run(["bad", args], bad)


def groups(tier):
    q = tier == "quick"
    g = [("program", g_program), ("effect", g_effect), ("clean", g_clean), ("workers", g_workers)]
    g += [(f"metric {i}", g_metric, i, 6) for i in range(6)]
    g += [(f"files {i}", g_files, i, 6) for i in range(6)]
    g += [(f"smooth {i}", g_smooth, i, 6 if q else 4) for i in range(3 if q else 4)]
    return g
