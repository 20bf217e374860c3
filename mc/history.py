"""explicit-state exploration of operation histories on real objects.

Every sequence of operations up to a depth is executed on a freshly made world. A small model tracks the settings the sequence establishes; the values
observed afterwards (and the value returned by every query of the sequence) must equal those of a new object with these settings, computed once per
settings in a pristine forked process."""
import itertools

import numpy as np

from mc.core import fail
from mc.interleave import Pristine


def near(a, b):
    try:
        return abs(float(a) - float(b)) <= 1e-9 * max(1, abs(float(b)))
    except ValueError:
        return False


def differ(a, b, atol, rtol, path=""):
    """path of the first difference of two observed values or None"""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in b:
            if k not in a:
                return f"{path}.{k} missing"
            r = differ(a[k], b[k], atol, rtol, f"{path}.{k}")
            if r:
                return r
        return None
    if isinstance(b, (list, tuple)) and isinstance(a, (list, tuple)) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            r = differ(x, y, atol, rtol, f"{path}[{i}]")
            if r:
                return r
        return None
    if isinstance(a, str) and isinstance(b, str):
        x, y = a.split(), b.split()
        if len(x) == len(y) and all(i == j or near(i, j) for i, j in zip(x, y)):
            return None
        return f"{path}: {a!r:.200} expected {b!r:.200}"
    if isinstance(b, (str, type(None), bytes)) or isinstance(a, (str, type(None), bytes)):
        return None if type(a) is type(b) and a == b else f"{path}: {a!r:.200} expected {b!r:.200}"
    x, y = np.asarray(a), np.asarray(b)
    if x.shape != y.shape:
        return f"{path}: shape {x.shape} expected {y.shape}"
    if x.dtype.kind in "fc" or y.dtype.kind in "fc":
        with np.errstate(all="ignore"):
            ok = (np.abs(x - y) <= atol + rtol * np.abs(y)) | (x == y) | (np.isnan(x) & np.isnan(y))
        if ok.all():
            return None
        i = tuple(np.argwhere(~ok)[0])
        return f"{path}{list(map(int, i))}: {x[i]!r} expected {y[i]!r} ({np.sum(~ok)} of {ok.size} differ)"
    return None if np.array_equal(x, y) else f"{path}: {x.ravel()[:6]} expected {y.ravel()[:6]}"


class Explorer:
    """ops: {name: (fn(world) -> value or None, model(settings) -> settings, query key or None)}; settings are hashable tuples, one per object"""

    def __init__(self, ctx, tag, make, start, ops, observe, fresh, atol=1e-12, rtol=1e-9):
        self.ctx, self.tag, self.make, self.start, self.ops, self.observe, self.fresh = ctx, tag, make, start, ops, observe, fresh
        self.atol, self.rtol = atol, rtol
        self.memo = {}
        # answers come from forks of the process as it is now, before any operation
        self.pristine = Pristine(fresh)

    def expected(self, k):
        if k not in self.memo:
            self.memo[k] = self.pristine(k)
        return self.memo[k]

    def sequence(self, seq):
        world = self.make()
        s = self.start
        for n, name in enumerate(seq):
            fn, model, query = self.ops[name]
            s = model(s) if model else s
            val = fn(world)
            self.ctx.trans()
            if query is not None:
                obj, key = query
                r = differ(val, self.expected(s[obj])[key], self.atol, self.rtol, key)
                if r:
                    fail(f"after {' / '.join(seq[:n])}: {r}")
        for i in range(len(s)):
            obs = self.observe(world, i)
            r = differ(obs, self.expected(s[i]), self.atol, self.rtol, f"object {i}")
            if r:
                fail(f"after {' / '.join(seq) or 'nothing'}: {r}")
        self.ctx.trace()
        self.ctx.state((self.tag, s, seq))

    def run(self, depth, first=None, last=None):
        names = list(self.ops)
        for k in range(depth + 1):
            for seq in itertools.product(names, repeat=k):
                if first is not None and (not seq or seq[0] not in first):
                    if seq or "" not in first:
                        continue
                self.ctx.run([self.tag, list(seq)], self.sequence, seq)
