"""stateless exploration of two threads at source-line (or bytecode) granularity.

Two operations run in two real threads; a trace function turns every line (or
opcode) executed inside the library into a scheduling point and exactly one
thread runs at a time. A schedule is a list of segments (thread, steps); the
last segment of each thread runs to its end. Every schedule is executed in its
own forked process, so all caches are as cold as at import."""
import os
import pickle
import sys
import threading
import traceback

REPO = os.path.realpath(os.environ.get("RT_REPO", "/repo")) + os.sep + "raytools" + os.sep


class Run:
    def __init__(self, ops, plan, opcodes, count=False):
        self.count = count
        self.ops, self.plan, self.opcodes = ops, list(plan), opcodes
        self.n = len(ops)
        self.steps = [0] * self.n
        self.res = [None] * self.n
        self.done = [False] * self.n
        self.cv = threading.Condition()
        self.cur = None          # running thread
        self.left = None         # steps left in the segment (None: to its end)
        self.free = False
        self.ticks = 0

    def advance(self):
        """choose the next segment (lock held)"""
        while True:
            if self.plan:
                t, n = self.plan.pop(0)
            else:
                rest = [i for i in range(self.n) if not self.done[i]]
                if not rest:
                    self.cur = None
                    break
                t, n = rest[0], None
            if not self.done[t] and n != 0:
                self.cur, self.left = t, n
                break
        self.cv.notify_all()

    def wait(self, me):
        while self.cur != me and not self.free:
            t = self.ticks
            if not self.cv.wait(5) and t == self.ticks:
                # the running thread is blocked on something this one holds
                self.free = True
                self.cv.notify_all()

    def step(self, me):
        # only the running thread gets here, so the counters need no lock
        if self.free:
            return
        self.steps[me] += 1
        self.ticks += 1
        if self.left is not None:
            self.left -= 1
            if self.left <= 0:
                with self.cv:
                    self.advance()
                    self.wait(me)
                self.untrace()

    def untrace(self):
        """no further preemption can come: run at full speed"""
        if self.left is None and not self.count and not self.plan:
            sys.settrace(None)

    def body(self, me):
        ops = self.opcodes

        def loc(frame, event, arg):
            if event == ("opcode" if ops else "line"):
                self.step(me)
            return loc

        def glob(frame, event, arg):
            if frame.f_code.co_filename.startswith(REPO):
                if ops:
                    frame.f_trace_opcodes = True
                    frame.f_trace_lines = False
                return loc
            return None
        with self.cv:
            self.wait(me)
        sys.settrace(glob)
        self.untrace()
        try:
            self.res[me] = ("ok", self.ops[me]())
        except BaseException as e:  # noqa
            self.res[me] = ("error", f"{type(e).__name__}: {e}",
                            traceback.format_exc()[-1500:])
        finally:
            sys.settrace(None)
            with self.cv:
                self.done[me] = True
                self.ticks += 1
                if self.cur == me:
                    self.advance()

    def go(self):
        ts = [threading.Thread(target=self.body, args=(i,), daemon=True)
              for i in range(self.n)]
        with self.cv:
            self.advance()
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        return self.res, self.steps


def isolated(fn):
    """value of fn() computed in a forked process"""
    r, w = os.pipe()
    p = os.fork()
    if p == 0:
        os.close(r)
        code = 0
        try:
            out = pickle.dumps(("ok", fn()))
        except BaseException:  # noqa
            out = pickle.dumps(("error", traceback.format_exc()))
        try:
            with os.fdopen(w, "wb") as f:
                f.write(out)
        except BaseException:  # noqa
            code = 1
        os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(p, 0)
    if not data:
        raise RuntimeError("the forked process ended without an answer")
    k, v = pickle.loads(data)
    if k == "error":
        raise RuntimeError(v)
    return v


class Pristine:
    """fn(key) computed in forks of this process as it was when the object was made: nothing done here later reaches it"""

    def __init__(self, fn):
        ar, aw = os.pipe()
        br, bw = os.pipe()
        p = os.fork()
        if p == 0:
            os.close(aw)
            os.close(br)
            try:
                with os.fdopen(ar, "rb") as i, os.fdopen(bw, "wb") as o:
                    while True:
                        try:
                            k = pickle.load(i)
                        except EOFError:
                            break
                        try:
                            v = ("ok", isolated(lambda: fn(k)))
                        except Exception as e:  # noqa
                            v = ("error", str(e))
                        pickle.dump(v, o)
                        o.flush()
            finally:
                os._exit(0)
        os.close(ar)
        os.close(bw)
        self.w, self.r = os.fdopen(aw, "wb"), os.fdopen(br, "rb")

    def __call__(self, key):
        pickle.dump(key, self.w)
        self.w.flush()
        k, v = pickle.load(self.r)
        if k == "error":
            raise RuntimeError(v)
        return v


def execute(makers, plan, opcodes=False, count=False):
    """makers: callables building an operation (called before tracing starts)"""
    def fn():
        return Run([m() for m in makers], plan, opcodes, count).go()
    return isolated(fn)


def flat(o):
    """nested results as a list of comparable leaves"""
    import numpy as np
    if isinstance(o, (list, tuple)):
        return [l for i in o for l in flat(i)]
    if isinstance(o, dict):
        return [l for k in sorted(o) for l in flat(o[k])]
    if isinstance(o, (str, bytes)) or o is None:
        return [o]
    return [np.asarray(o)]


def equal(a, b):
    import numpy as np
    fa, fb = flat(a), flat(b)
    if len(fa) != len(fb):
        return False
    for x, y in zip(fa, fb):
        if isinstance(x, np.ndarray) and isinstance(y, np.ndarray):
            if x.shape != y.shape:
                return False
            if x.dtype.kind in "fc":
                if not np.allclose(x, y, rtol=1e-9, atol=1e-12, equal_nan=True):
                    return False
            elif not np.array_equal(x, y):
                return False
        elif type(x) is not type(y) or x != y:
            return False
    return True
