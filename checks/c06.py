"""Breadth-first exploration of all operation sequences up to depth 4 (quick) / 6 of the process cap (set with every kind of value,
unset, read, read with explicit value, external change of the environment), executed on the real module from every reachable state
against a reference state machine; the cap is also read where it takes effect (workers of a pool). Same for the search path:
all sequences of configuring with several base files / folders from every user path up to 3 entries (with repeats)."""
import itertools
import os

import numpy as np

import raytools
from mc.core import check, raises
from raytools import io, utility

RULE = "one case per operation sequence; states are (environment value, last read)"
VAR = "RAYTOOLS_PROC_CAP"


def op_set(v):
    def real():
        io.set_nproc(v)

    def ref(s):
        if v is None:
            return s
        if type(v) is not int:
            return "error"
        return v if v >= 1 else None
    return ("set", repr(v)), real, ref


OPS = [op_set(v) for v in (1, 2, 7, 10 ** 6, 0, -1, -8, None, "3", 2.0, True, 1.5, [1])] + [
    (("unset",), io.unset_nproc, lambda s: None),
    (("get",), lambda: io.get_nproc(), lambda s: s),
    (("get", 5), lambda: check(io.get_nproc(5) == 5, "explicit value"), lambda s: s),
    (("get", 1), lambda: check(io.get_nproc(1) == 1, "explicit value"), lambda s: s)]
EXPLICIT = [(("get", v), lambda v=v: check(io.get_nproc(v) == v, f"explicit value {v}"), lambda s: s) for v in (0, 3, 10 ** 6)]


def apply(seq, ctx):
    os.environ.pop(VAR, None)
    s = None
    for name, real, ref in seq:
        e = ref(s)
        ctx.trans()
        if e == "error":
            raises((ValueError, TypeError), real)
        else:
            real()
            s = e
        ctx.state((s, os.environ.get(VAR)))
        want = os.cpu_count() if s is None else s
        got = io.get_nproc()
        check(got == want and isinstance(got, int), f"cap {got!r} instead of {want!r} after {[o[0] for o in seq]}")
        check(io.get_nproc(3) == 3, "explicit value")
        check(io.get_nproc() == want, "reading changed the cap")
    os.environ.pop(VAR, None)


def g_cap(ctx, depth, k, parts):
    i = 0
    for n in range(1, depth + 1):
        for seq in itertools.product(OPS + (EXPLICIT if n < 4 else []), repeat=n):
            i += 1
            if i % parts == k:
                ctx.run([[o[0] for o in seq]], apply, seq, ctx)


def g_pool(ctx):
    """where the cap takes effect: the worker count of a process pool"""
    import math
    os.environ.pop(VAR, None)
    for cap in (None, 1, 2, 5):
        for glob in (None, 1, 3, 4, 0, -2):
            def go():
                io.unset_nproc()
                io.set_nproc(glob)
                want = cap or (glob if glob and glob > 0 else os.cpu_count())
                t = utility.TStqdm(workers=True, cap=cap, disable=True)
                check(t.nworkers == want, f"{t.nworkers} workers instead of {want}")
                t.pool.shutdown()
                t.close()
                r = utility.pool_call(math.sqrt, [1., 4., 9.], expandarg=False, pbar=False, cap=cap)
                check(r == [1., 2., 3.], f"results {r!r}")
                check(io.get_nproc() == (glob if glob and glob > 0 else os.cpu_count()), "cap changed by use")
                io.unset_nproc()
            ctx.run([cap, glob], go)
    for bad in ("x", "", "2.5", " "):
        def env():
            os.environ[VAR] = bad
            check(io.get_nproc() == os.cpu_count(), f"cap from {bad!r}")
            io.set_nproc(2)
            check(io.get_nproc() == 2, "set over a bad value")
            io.unset_nproc()
        ctx.run(["env", bad], env)


def ref_path(base, subd, user):
    own = [".", os.path.dirname(base) + (os.sep + subd if subd is not None else "")]
    out = []
    for x in own + (user or []):
        if x not in out:
            out.append(x)
    return out


ENTRIES = [".", "/usr/lib/ray", "/a b/c", os.path.dirname(raytools.__file__) + "/cal", "..", "/x/y/cal"]


def g_path(ctx, n, depth):
    calls = [(raytools.__file__, "cal"), (raytools.__file__, None), ("/x/y/z.py", "cal"), ("/x/y/z.py", "data")]
    users = [None] + [list(u) for k in range(1, n + 1) for u in itertools.product(ENTRIES, repeat=k)]
    for user in users:
        for k in range(1, depth + 1):
            if len(user or []) == n and k > 2:
                continue
            for seq in itertools.product(range(len(calls)), repeat=k):
                def go():
                    old = os.environ.pop("RAYPATH", None)
                    try:
                        if user is not None:
                            os.environ["RAYPATH"] = os.pathsep.join(user)
                        cur = user
                        for c in seq:
                            base, subd = calls[c]
                            if c == 0:
                                raytools.set_raypath()
                            else:
                                raytools.set_raypath(base, subd)
                            cur = ref_path(base, subd, cur)
                            got = os.environ["RAYPATH"].split(os.pathsep)
                            ctx.trans()
                            ctx.state(tuple(got))
                            check(got == cur, f"path {got!r} instead of {cur!r}")
                            check(len(set(got)) == len(got), "repeated entry")
                            raytools.set_raypath(base, subd)
                            check(os.environ["RAYPATH"].split(os.pathsep) == cur, "configuring twice")
                    finally:
                        os.environ.pop("RAYPATH", None)
                        if old is not None:
                            os.environ["RAYPATH"] = old
                ctx.run([user, seq], go)


def groups(tier):
    q = tier == "quick"
    return [(f"cap{k}", g_cap, 4 if q else 5, k, 6) for k in range(6)] + [
        ("pool", g_pool), ("path", g_path, 2 if q else 3, 3 if q else 4)]
