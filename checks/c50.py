"""Every write of an image or binary array under every obstacle: a file that may grow to n bytes only, for every n below its size; a full device; a folder that is missing, a name that is a folder or too long; a Radiance tool
that is missing, or ends with an error or by a signal after every number of bytes of its output, having read all of its input or none. Each write must raise within the time limit or leave the complete file, and the next write without the obstacle must be
complete."""
import contextlib
import os
import resource
import shutil
import signal
import stat

import numpy as np

from mc.core import Violation, check, scratch
from raytools import imagetools, io
from raytools.evaluate import hvsgsm
from raytools.mapper import Mapper, ViewMapper

RULE = "one case per (writer, obstacle)"
VIEW = ViewMapper((0, 1, 0), 180)
LIMIT = 20
TOOLS = ("pvalue", "getinfo")


def pix(w, h, ch=1):
    a = (np.arange(ch * w * h).reshape(ch, w, h) * 7 % 11 + 1) * .5
    return a[0] if ch == 1 else a


def writers():
    """(name, function of the target)"""
    g, c = pix(5, 4), pix(5, 4, 3)
    big, bigc = pix(300, 220), pix(150, 140, 3)
    hd = ["VIEW= -vta -vv 180 -vh 180 -vd 0 1 0 -vu 0 0 1", "NOTE=some words"]
    w = [("grey", lambda f: io.array2hdr(g, f)), ("colour", lambda f: io.array2hdr(c, f)), ("colour c", lambda f: io.carray2hdr(c, f)),
         ("grey header", lambda f: io.array2hdr(g, f, hd)), ("colour header", lambda f: io.array2hdr(c, f, hd)), ("clean header", lambda f: io.array2hdr(g, f, hd, clean=True)), ("empty header", lambda f: io.carray2hdr(c, f, [])),
         ("wide", lambda f: io.array2hdr(pix(9, 2), f, hd)), ("array", lambda f: io.np2bytefile(g, f)), ("array <d", lambda f: io.np2bytefile(g, f, "<d"))]
    large = [("large grey", lambda f: io.array2hdr(big, f)), ("large grey header", lambda f: io.array2hdr(big, f, hd)), ("large colour", lambda f: io.carray2hdr(bigc, f)),
             ("large colour header", lambda f: io.carray2hdr(bigc, f, hd, clean=True)), ("large array", lambda f: io.np2bytefile(big, f))]
    made = [("rotate", lambda f: imagetools.hdr_rotate("in.hdr", f, rotate=20.)), ("ang2uv", lambda f: imagetools.hdr_ang2uv("in.hdr", outf=f)), ("uv2ang", lambda f: imagetools.hdr_uv2ang("in.hdr", f)),
            ("solid2ang", lambda f: imagetools.hdr_solid2ang("in.hdr", f)), ("plot", lambda f: VIEW.plot(np.array([(0., 1, .1)]), f, res=12)),
            ("planar plot", lambda f: Mapper().plot(np.array([(.5, .5, 0)]), f, res=9)), ("response", response)]
    return w, large, made


def response(f):
    s = hvsgsm.GSS("in.hdr", psf=False, adaptmove=False, directmove=False)
    s.lum = "in.hdr"
    return s.compute(save=f)


@contextlib.contextmanager
def timed():
    def late(*a):
        raise Violation(f"no answer within {LIMIT} s")
    old = signal.signal(signal.SIGALRM, late)
    signal.alarm(LIMIT)
    try:
        yield
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


@contextlib.contextmanager
def quiet():
    """the tools report on stderr"""
    n = os.open(os.devnull, os.O_WRONLY)
    old = os.dup(2)
    os.dup2(n, 2)
    try:
        yield
    finally:
        os.dup2(old, 2)
        os.close(old)
        os.close(n)


def body(b):
    """content without the time of writing"""
    return b if b is None else b"\n".join(i for i in b.split(b"\n", 12) if b"CAPDATE" not in i and b"GMT" not in i)


def content(f):
    with open(f, "rb") as h:
        return body(h.read())


def attempt(fn, f):
    """None, or the exception of the write"""
    with timed(), quiet():
        try:
            fn(f)
        except Violation:
            raise
        except Exception as e:
            return e
    return None


def after(name, fn, want):
    """the next write is complete"""
    e = attempt(fn, "next.hdr")
    check(e is None, f"{name}: the write after the failed one raises {e!r}")
    check(content("next.hdr") == want, f"{name}: the write after the failed one is not complete")


def first(name, fn):
    e = attempt(fn, "next.hdr")
    if e is not None:
        raise Violation(f"{name}: {type(e).__name__}: {e}")
    return content("next.hdr"), os.path.getsize("next.hdr")


def setup():
    io.carray2hdr(pix(12, 12, 3) + .3, "in.hdr", [VIEW.header()])


def g_grow(ctx, part, parts, step, which):
    with scratch():
        setup()
        jobs = writers()[which]
        for k, (name, fn) in enumerate(jobs):
            if k % parts != part:
                continue
            got = ctx.run([name, "complete"], first, name, fn)
            if got is None:
                continue
            want, size = got

            def grow(n):
                soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
                resource.setrlimit(resource.RLIMIT_FSIZE, (n, hard))
                try:
                    e = attempt(fn, "f.hdr")
                finally:
                    resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
                if e is None:
                    check(content("f.hdr") == want, f"{name}: returned although the file ends at {os.path.getsize('f.hdr')} of {size} bytes")
                ctx.outcome((name, e is None))
            for n in list(range(0, size + 1, step)) + [size - 1]:
                ctx.run([name, "grows to", n], grow, n)
                ctx.trans()
                if n % (16 * step) == 0:
                    ctx.run([name, "after", n], after, name, fn, want)


def g_place(ctx, which):
    with scratch():
        setup()
        os.mkdir("folder.hdr")
        open("plain", "w").close()
        for name, fn in writers()[which]:
            got = ctx.run([name, "complete"], first, name, fn)
            if got is None:
                continue
            for place in ("/dev/full", "none/x.hdr", "folder.hdr", "plain/x.hdr", "n" * 300 + ".hdr", "none/deep/x"):
                def go():
                    e = attempt(fn, place)
                    check(e is not None, f"{name}: writing to {place[:20]} returned as if it had succeeded")
                    after(name, fn, got[0])
                ctx.run([name, "to", place[:20]], go)
                ctx.trans()


def stand_in(root, tool, script):
    b = root + "/bin"
    shutil.rmtree(b, ignore_errors=True)
    os.mkdir(b)
    for t in TOOLS:
        real = shutil.which(t)
        if t != tool:
            os.symlink(real, f"{b}/{t}")
        elif script is not None:
            with open(f"{b}/{t}", "w") as h:
                h.write("#!/bin/sh\n" + script.format(real=real) + "\n")
            os.chmod(f"{b}/{t}", stat.S_IRWXU)
    return b


def g_tool(ctx, part, parts, step, which):
    with scratch() as root:
        setup()
        for k, (name, fn) in enumerate(writers()[which]):
            if "array" in name or k % parts != part:
                continue
            got = ctx.run([name, "complete"], first, name, fn)
            if got is None:
                continue
            want, size = got
            uses = [t for t in TOOLS if t == "pvalue" or "header" in name or name == "wide" or which == 2]
            for t in uses:
                # (an image tool asks getinfo for the header of its input too)
                ways = [("ends at once", "exit 3"), ("killed at once", "kill -9 $$"), ("reads all, fails", "cat > /dev/null; exit 1"), ("complete, fails", '"{real}" "$@"; exit 1'), ("missing", None)]
                ways += [(f"{n} bytes, {how}", f'"{{real}}" "$@" | head -c {n}; {end}') for n in range(0, size, step) for how, end in (("fails", "exit 1"), ("killed", "kill -9 $$"))]
                if which == 2:
                    ways = ways[:3] + ways[4:5] if t == "pvalue" else []
                for what, script in ways:
                    def go():
                        b = stand_in(root, t, script)
                        old = os.environ["PATH"]
                        # (the shell and its tools stay within reach)
                        os.environ["PATH"] = b + ":/usr/bin:/bin"
                        try:
                            if script is None and shutil.which(t):
                                return
                            e = attempt(fn, "f.hdr")
                        finally:
                            os.environ["PATH"] = old
                            shutil.rmtree(b)
                        check(e is not None, f"{name}: returned as if it had succeeded although {t} {what}")
                        ctx.outcome((name, t, type(e).__name__))
                    ctx.run([name, t, what], go)
                    ctx.trans()
                ctx.run([name, t, "after"], after, name, fn, want)


def groups(tier):
    q = tier == "quick"
    return [(f"grow {p}", g_grow, p, 10, 1, 0) for p in range(10)] + [(f"grow made {p}", g_grow, p, 7, 7 if not q else 60, 2) for p in range(7)] + \
        [(f"grow large {p}", g_grow, p, 5, 1009 if not q else 20011, 1) for p in range(5)] + \
        [(f"place {w}", g_place, w) for w in range(3)] + [(f"tool {p}", g_tool, p, 8, 1 if not q else 5, 0) for p in range(8)] + \
        [(f"tool large {p}", g_tool, p, 4, 3001 if not q else 60013, 1) for p in range(4)] + [(f"tool made {p}", g_tool, p, 7, 100, 2) for p in range(7)]
