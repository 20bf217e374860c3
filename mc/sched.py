"""controlled scheduler for pools: every task announces itself in a log file and waits at a named pipe until a controller process
lets it finish; the controller follows a list of choices (which of the running tasks finishes next), so that all completion orders
reachable under the pool's own concurrency are enumerated statelessly."""
import json
import os
import time

TIMEOUT = 20.


class Boom(Exception):
    pass


class Boom2(ValueError):
    pass


def gated(i, work, fails, *fixed, **kw):
    """the mapped function (top level: picklable)"""
    rec = json.dumps([i, os.getpid(), repr(fixed), repr(sorted(kw.items()))]) + "\n"
    fd = os.open(os.path.join(work, "log"), os.O_WRONLY | os.O_APPEND | os.O_CREAT)
    os.write(fd, rec.encode())
    os.close(fd)
    with open(os.path.join(work, f"gate{i}")) as f:
        f.read()
    if i in fails:
        how = fails[i]
        if how == "exit":
            os._exit(7)
        raise (Boom if how == "boom" else Boom2)(f"task {i}")
    return value(i, fixed, kw)


def gated_one(arg, *fixed, **kw):
    """same for unexpanded arguments"""
    return gated(*arg, *fixed, **kw)


def value(i, fixed, kw):
    return [None, ("r", i), {"i": i}, [], i * 10][i % 5], fixed, sorted(kw.items())


def readlog(work):
    try:
        with open(os.path.join(work, "log")) as f:
            t = f.read()
    except FileNotFoundError:
        return []
    return [json.loads(x) for x in t.split("\n")[:-1]] if t.endswith("\n") or not t else \
        [json.loads(x) for x in t.split("\n")[:-1]]


def controller(n, width, choices, work, settle=.004):
    """runs in its own process: waits for running tasks, releases them in the order given by choices (then always the first);
    writes the number of options met at each step and the largest number of tasks seen running"""
    done, opts, most = [], [], 0
    step = 0
    stop = os.path.join(work, "stop")
    t0 = time.time()
    while len(done) < n:
        want = min(width, n - len(done))
        t1 = time.time()
        while True:
            started = [r[0] for r in readlog(work)]
            run = sorted(set(started) - set(done))
            if len(run) >= want:
                time.sleep(settle)  # would a further task start?
                started = [r[0] for r in readlog(work)]
                run = sorted(set(started) - set(done))
                break
            if run and time.time() - t1 > 1.:
                break
            if (os.path.exists(stop) and time.time() - t1 > .3) or time.time() - t0 > TIMEOUT:
                break
            time.sleep(.0005)
        if not run:
            break
        most = max(most, len(run))
        opts.append(len(run))
        c = choices[step] if step < len(choices) else 0
        step += 1
        i = run[min(c, len(run) - 1)]
        done.append(i)
        # opens as soon as the task waits at its gate
        t1 = time.time()
        while time.time() - t1 < (.3 if os.path.exists(stop) else 5):
            try:
                fd = os.open(os.path.join(work, f"gate{i}"), os.O_WRONLY | os.O_NONBLOCK)
                os.close(fd)
                break
            except OSError:
                time.sleep(.0003)
        time.sleep(settle)
    with open(os.path.join(work, "ctl"), "w") as f:
        json.dump(dict(opts=opts, most=most, order=done), f)


def run(n, width, choices, call):
    """call(work) executes the parallel map in this process; returns (result or exception, controller report, log)"""
    import shutil
    import signal
    import tempfile
    work = tempfile.mkdtemp(prefix="rtmc_s")
    for i in range(n):
        os.mkfifo(os.path.join(work, f"gate{i}"))
    pid = os.fork()
    if pid == 0:
        try:
            controller(n, width, choices, work)
        finally:
            os._exit(0)

    def late(*a):
        raise TimeoutError("the parallel map hangs")
    old = signal.signal(signal.SIGALRM, late)
    signal.alarm(int(TIMEOUT) + 5)
    try:
        try:
            r = ("value", call(work))
        except Exception as e:  # noqa
            r = ("error", e)
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    open(os.path.join(work, "stop"), "w").close()
    os.waitpid(pid, 0)
    rep = json.load(open(os.path.join(work, "ctl")))
    log = readlog(work)
    shutil.rmtree(work, ignore_errors=True)
    return r, rep, log


def explore(visit):
    """stateless depth-first search over choice sequences; visit(choices) -> list of option counts met"""
    choices = []
    n = 0
    while True:
        opts = visit(list(choices))
        n += 1
        if opts is None:
            return n
        full = (choices + [0] * len(opts))[:len(opts)]
        i = len(opts) - 1
        while i >= 0 and full[i] + 1 >= opts[i]:
            i -= 1
        if i < 0:
            return n
        choices = full[:i] + [full[i] + 1]
