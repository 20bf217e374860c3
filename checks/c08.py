"""Stateless exploration of the real pools under a controlled scheduler (mc/sched.py): every task waits at a gate and a controller
lets the running tasks finish in every possible order (depth-first over all choices), for 0-5 (quick) / 6 tasks, 1-3 worker
processes and threads, plain and expanded arguments, fixed and keyword arguments, progress bar on and off, every spelling of the
worker argument and both process contexts. Results, the calls each task received and the number of tasks running at once are
compared with the sequential loop."""
import itertools

from mc import sched
from mc.core import check
from raytools import io, utility

RULE = "one case per schedule (tasks, workers, calling form, completion order); transitions are task completions"
VALUES = [None, 0, 1.5, "text", (1, 2), [3], {"k": 4}, b"x"]


def args_of(n, work, fails, form):
    a = [(i, work, fails) for i in range(n)]
    return [list(x) for x in a] if form == "lists" else tuple(a) if form == "tuple" else a


def one(ctx, n, workers, cap, form, pbar, context, glob, choices):
    width = n if str(workers).lower() in ("t", "thread", "threads") else min(cap or glob or io.get_nproc(), max(n, 1))
    fixed, kw = ((), {}) if form == "plain" else ((7, "f"), {"key": [1], "b": None})

    def call(work):
        a = args_of(n, work, {}, form)
        k = dict(kw)
        if form == "noexpand":
            k.update(expandarg=False)
        if context:
            k.update(context=context)
        if cap:
            k.update(cap=cap)
        io.unset_nproc()
        if glob:
            io.set_nproc(glob)
        try:
            return utility.pool_call(sched.gated_one if form == "noexpand" else sched.gated, a, *fixed, workers=workers,
                                     pbar=pbar, desc="d", **k)
        finally:
            io.unset_nproc()
    (what, r), rep, log = sched.run(n, width, choices, call)
    if what == "error":
        raise r
    check(isinstance(r, list) and r == [sched.value(i, fixed, kw) for i in range(n)], f"results {r!r} (order {rep['order']})")
    check(sorted(x[0] for x in log) == list(range(n)), f"calls {sorted(x[0] for x in log)}")
    for x in log:
        check(x[2] == repr(fixed) and x[3] == repr(sorted(kw.items())), f"arguments {x!r}")
    if cap or glob or not workers:
        check(rep["most"] <= (width if workers else 1), f"{rep['most']} tasks at once with a cap of {width}")
    if workers and str(workers).lower() not in ("t", "thread", "threads"):
        import os
        check(all(x[1] != os.getpid() for x in log), "not run in a worker process")
        check(len({x[1] for x in log}) <= width, f"{len({x[1] for x in log})} workers with a cap of {width}")
    for k in range(len(rep["order"])):
        ctx.state((n, width, workers, tuple(sorted(rep["order"][:k])), rep["opts"][k]))
    ctx.trans(n)
    ctx.trace()
    ctx.outcome(tuple(rep["order"]))
    return rep["opts"]


def g_sched(ctx, n, workers, cap, form, pbar, context=None, glob=None):
    def visit(choices):
        return ctx.run([n, workers, cap, form, pbar, context, glob, choices], one, ctx, n, workers, cap, form, pbar, context, glob, choices)
    sched.explore(visit)


def plain(x, *fixed, **kw):
    return x, fixed, kw


def starred(*a, **kw):
    return a, kw


def g_forms(ctx):
    """values, spellings and calling forms without gates"""
    ways = [False, None, 0, "", "t", "T", "thread", "threads", "Threads", True, "process", 1]
    for w in ways:
        for m in (0, 1, 2, 8):
            for form in ("noexpand", "expand0", "expand1", "expand2"):
                def go():
                    vals = VALUES[:m]
                    if form == "noexpand":
                        r = utility.pool_call(plain, list(vals), 5, workers=w, expandarg=False, pbar=False, cap=2, z=1, n=None, f=False)
                        e = [plain(v, 5, z=1, n=None, f=False) for v in vals]
                    else:
                        k = int(form[-1])
                        a = [(v,) * k for v in vals]
                        r = utility.pool_call(starred, a, 5, 6, workers=w, pbar=False, cap=2, z=1, n=None, s="")
                        e = [starred(*x, 5, 6, z=1, n=None, s="") for x in a]
                    check(r == e, f"{r!r} instead of {e!r}")
                    check(isinstance(r, list) and len(r) == m, "not a list")
                ctx.run([w, m, form], go)

            def here():
                """tasks of the loop and of threads share the caller's memory"""
                seen = []
                r = utility.pool_call(lambda v, k: seen.append((v, k)), range(m), 3, workers=w, expandarg=False, pbar=False, cap=2)
                check(sorted(seen) == [(v, 3) for v in range(m)], f"calls recorded: {seen}")
                check(r == [None] * m, f"{r!r}")
            if not w or str(w).lower() in ("t", "thread", "threads"):
                ctx.run([w, m, "recorded"], here)


def g_repeat(ctx):
    """successive maps of different kinds do not influence each other"""
    for seq in itertools.product([False, "t", True], repeat=3):
        def go():
            for i, w in enumerate(seq):
                for n in (0, 3, 1):
                    r = utility.pool_call(plain, range(n), i, workers=w, expandarg=False, pbar=False, cap=1 + i)
                    check(r == [(k, (i,), {}) for k in range(n)], f"{r!r}")
                    ctx.trans()
        ctx.run([seq], go)


def groups(tier):
    q = tier == "quick"
    g = [("forms", g_forms), ("repeat", g_repeat)]
    N = 5 if q else 6
    for n in range(0, N + 1):
        g.append((f"threads{n}", g_sched, n, "threads", None, "extra", False))
        for cap in (1, 2, 3):
            if cap <= max(n, 1):
                g.append((f"proc{n}-{cap}", g_sched, n, True, cap, "plain" if cap == 2 else "noexpand", False))
    g.append(("threads-noexpand", g_sched, 3, "t", None, "noexpand", True))
    g.append(("threads-list", g_sched, 3, "Thread", None, "lists", False))
    g.append(("procs-bar", g_sched, 3, True, 3, "extra", True))
    g.append(("procs-global", g_sched, 3, True, None, "tuple", False, None, 2))
    g.append(("procs-both", g_sched, 3, True, 2, "extra", False, None, 1))
    g.append(("procs-server", g_sched, 3, True, 2, "extra", False, "forkserver"))
    if not q:
        g.append(("procs4-global", g_sched, 4, "yes", None, "lists", True, None, 3))
        g.append(("procs4-server", g_sched, 4, True, 3, "noexpand", True, "forkserver"))
        g.append(("proc5-4", g_sched, 5, True, 4, "extra", True))
    return sorted(g, key=lambda x: -(x[2] if len(x) > 2 and isinstance(x[2], int) else 0))
