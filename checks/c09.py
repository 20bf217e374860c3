"""The same controlled scheduler as C08 with faults: for 1-4 (quick) / 5 tasks, every non-empty subset of them fails (two exception
types; also a worker that dies), and every completion order is enumerated for threads and 1-3 worker processes, plus the
sequential loop. The exception must be the one of the first failing argument in argument order, no value may be returned, the call
must come back, and a map executed right after it must be complete and correct."""
import concurrent.futures as cf
import itertools

from mc import sched
from mc.core import check
from raytools import io, utility

RULE = "one case per (failing subset, workers, completion order)"


def plain(x):
    return x * 2


def after(n=4):
    for w in (False, "t", True):
        r = utility.pool_call(plain, range(n), workers=w, expandarg=False, pbar=False, cap=2)
        check(r == [2 * i for i in range(n)], f"next map returned {r!r}")


def one(ctx, n, workers, cap, fails, choices):
    th = str(workers).lower() in ("t", "thread", "threads")
    width = n if th else (cap if workers else 1)

    def call(work):
        return utility.pool_call(sched.gated, [(i, work, fails) for i in range(n)], workers=workers, cap=cap, pbar=False)
    (what, r), rep, log = sched.run(n, width, choices, call)
    check(what == "error", f"returned {r!r} although tasks {sorted(fails)} fail")
    check(not isinstance(r, TimeoutError), "hangs")
    first = min(fails)
    if "exit" in fails.values():
        check(isinstance(r, Exception), "no exception for a dead worker")
    else:
        cls = sched.Boom if fails[first] == "boom" else sched.Boom2
        check(type(r) is cls and r.args == (f"task {first}",), f"raised {r!r} instead of {cls.__name__} of task {first} (order {rep['order']})")
    calls = [x[0] for x in log]
    check(len(set(calls)) == len(calls), f"called twice: {calls}")
    if not workers:
        check(calls == list(range(first + 1)), f"sequential calls {calls}")
    ctx.trans(len(rep["order"]))
    ctx.trace()
    ctx.state((n, width, th, tuple(rep["order"])))
    ctx.outcome((type(r).__name__, r.args if not isinstance(r, OSError) else 0))
    return rep["opts"]


def g_fail(ctx, n, workers, cap, kinds):
    for k in range(1, n + 1):
        for sub in itertools.combinations(range(n), k):
            for kk in kinds:
                fails = {i: kk[j % len(kk)] for j, i in enumerate(sub)}

                def visit(choices):
                    return ctx.run([n, workers, cap, sorted(fails.items()), choices], one, ctx, n, workers, cap, fails, choices)
                sched.explore(visit)
                ctx.run([n, workers, cap, sorted(fails.items()), "next"], after)


def g_die(ctx, n, cap):
    for i in range(n):
        fails = {i: "exit"}
        ctx.run([n, cap, i, "dies"], one, ctx, n, True, cap, fails, [])
        ctx.run([n, cap, i, "next"], after)


KINDS = [ValueError, KeyError, IndexError, StopIteration, StopAsyncIteration, GeneratorExit, TimeoutError, OSError, FileNotFoundError,
         BrokenPipeError, EOFError, MemoryError, RecursionError, AssertionError, ArithmeticError, AttributeError, TypeError,
         NotImplementedError, cf.CancelledError, cf.TimeoutError, Warning, SystemExit, KeyboardInterrupt]


def raiser(x, kinds):
    if x in kinds:
        raise KINDS[kinds[x]](f"task {x}")
    return x


def g_kinds(ctx, n):
    """every builtin exception at every position (and together with a second one)"""
    for k in range(len(KINDS)):
        for pos in range(n):
            for second in [None] + [i for i in range(n) if i != pos]:
                for w in (False, "t", True):
                    if w is True and KINDS[k] in (KeyboardInterrupt, SystemExit, GeneratorExit):
                        continue

                    def go():
                        kinds = {pos: k}
                        if second is not None:
                            kinds[second] = (k + 1) % 3
                        first = min(kinds)
                        try:
                            r = utility.pool_call(raiser, range(n), kinds, workers=w, expandarg=False, pbar=False, cap=2)
                        except BaseException as e:
                            check(type(e) is KINDS[kinds[first]] and e.args == (f"task {first}",), f"raised {e!r}")
                        else:
                            check(False, f"returned {r!r} although a task raised {KINDS[k].__name__}")
                    ctx.run([n, KINDS[k].__name__, pos, second, w], go)


def g_iter(ctx):
    """the argument list itself fails while it is read"""
    def bad(n):
        for i in range(n):
            yield i
        raise sched.Boom("args")

    class Seq(list):
        def __iter__(self):
            return bad(2)
    for w in (False, "t", True):
        def go():
            try:
                r = utility.pool_call(plain, Seq([1, 2, 3]), workers=w, expandarg=False, pbar=False, cap=2)
            except sched.Boom:
                return after()
            check(False, f"returned {r!r}")
        ctx.run([w, "arguments"], go)


def groups(tier):
    q = tier == "quick"
    one_, mix = (("boom",),), (("boom",), ("boom2", "boom"))
    g = [("iter", g_iter)] + [(f"kinds{n}", g_kinds, n) for n in ((1, 3) if q else (1, 2, 3, 4))]
    for n in range(1, (4 if q else 5) + 1):
        g.append((f"seq{n}", g_fail, n, False, None, mix))
        g.append((f"threads{n}", g_fail, n, "threads", None, mix if n < 4 or not q and n < 5 else one_))
        for cap in (1, 2, 3):
            if cap <= n:
                g.append((f"proc{n}-{cap}", g_fail, n, True, cap, mix if n < 3 else one_))
    g += [(f"dies{n}-{c}", g_die, n, c) for n in (1, 2, 3) for c in (1, 2)]
    return g[::-1]
