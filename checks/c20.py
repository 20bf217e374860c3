"""Every combination of selector kinds (nothing, integers, negative integers, lists, repeated and reversed indices, tuples, arrays of any dimension,
empty selections, slices with steps and negative bounds) over arrays of 1 to 3 dimensions, axes implied, in every order and subset, and
given as a scalar, list or array; the reference builds the cross product of resolved indices element by element."""
import itertools

import numpy as np

from mc.core import same, check
from raytools import translate as tr

RULE = "one case per (array shape, memory layout, selectors, axes); trivial only when every selector is None"


def sels(n, small):
    out = [("none", None, list(range(n))),
           ("int", n - 1, [n - 1]),
           ("neg", -1, [n - 1]),
           ("list", [n - 1, 0, n - 1], [n - 1, 0, n - 1]),
           ("slice", slice(None, None, -1), list(range(n))[::-1]),
           ("slice2", slice(1, None, 2), list(range(n))[1::2])]
    if not small:
        out += [("tuple", tuple(range(n))[::-1], list(range(n))[::-1]),
                ("array", np.arange(n)[::-1], list(range(n))[::-1]),
                ("npint", np.int64(0), [0]),
                ("array2d", np.zeros((2, 1), int), [0, 0]),
                ("range", range(n - 1), list(range(n - 1))),
                ("neglist", [-1, 0], [n - 1, 0]),
                ("slice3", slice(-2, None), list(range(n))[-2:]),
                ("slice4", slice(0, 0), []),
                ("full", slice(None), list(range(n)))]
    return out


def expect(a, per):
    """per: {axis: index list}"""
    ix = [per.get(k, list(range(a.shape[k]))) for k in range(a.ndim)]
    out = np.empty([len(i) for i in ix], dtype=a.dtype)
    for pos in np.ndindex(*out.shape):
        out[pos] = a[tuple(i[p] for i, p in zip(ix, pos))]
    return out


def g_shape(ctx, shape, small, layouts):
    base = np.arange(int(np.prod(shape))).reshape(shape)
    arrs = dict(C=base, F=np.asfortranarray(base), view=np.repeat(base, 2, 0)[::2], ro=base.copy())
    arrs["ro"].flags.writeable = False
    nd = len(shape)
    for k in range(1, nd + 1):
        for axes in itertools.permutations(range(nd), k):
            for ss in itertools.product(*[sels(shape[a], small) for a in axes]):
                e = expect(base, {a: s[2] for a, s in zip(axes, ss)})

                def go():
                    sl = [s[1] for s in ss]
                    for l in layouts:
                        same(tr.simple_take(arrs[l], *sl, axes=list(axes)), e, "named axes")
                    same(tr.simple_take(base, *sl, axes=np.array(axes)), e, "array of axes")
                    if k == 1:
                        same(tr.simple_take(base, *sl, axes=axes[0]), e, "scalar axis")
                    if axes == tuple(range(k)):
                        same(tr.simple_take(base, *sl), e, "implied axes")
                    if nd > 1 and k == 1:
                        same(tr.simple_take(base, *sl, axes=[axes[0] - nd]), e, "negative axis")
                ctx.run([shape, axes, [s[0] for s in ss]], go)
    ctx.run([shape, "nothing"], lambda: same(tr.simple_take(base), base, "no selectors"))


def g_slices(ctx, n):
    """every slice: all starts, stops and steps"""
    base = np.arange(n * 2).reshape(n, 2)
    b = [None] + list(range(-n - 2, n + 3))
    for st, en, sp in itertools.product(b, b, [None] + [i for i in range(-n - 1, n + 2) if i]):
        s = slice(st, en, sp)
        e = [i for i in range(n)][s]

        def go():
            same(tr.simple_take(base[:, 0], s), base[e, 0], "slice of a vector")
            same(tr.simple_take(base, s), base[e], "slice of the first axis")
            same(tr.simple_take(base.T, s, axes=1), base.T[:, e], "slice of the last axis")
            same(tr.simple_take(base, s, [1, 0]), base[e][:, [1, 0]], "slice and list")
        ctx.run(["slice", n, st, en, sp], go)


def groups(tier):
    q = tier == "quick"
    lay = ("C", "F", "view", "ro")
    g = [(f"1d{n}", g_shape, (n,), False, lay) for n in (2, 3, 5)]
    g += [(f"2d{s}", g_shape, s, False, lay) for s in ((2, 3), (3, 2), (4, 4))]
    g += [(f"3d{s}", g_shape, s, q, lay[:2]) for s in ((2, 3, 4), (4, 2, 3), (3, 3, 2))]
    g += [(f"slices {n}", g_slices, n) for n in ((1, 3) if q else (1, 2, 3, 4, 5, 7))]
    if not q:
        g += [(f"4d{s}", g_shape, s, True, lay[:1]) for s in ((2, 3, 2, 3),)]
    return g
