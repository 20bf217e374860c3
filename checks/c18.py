"""Every data sequence (order matters) over three values with every weight assignment over four weights including zero, with thresholds,
at a lattice of quantiles including 0, 1 and values next to them: compared with a scalar reference (piecewise linear quantile of the
items included, sorted by value) and with range, monotonicity, permutation, weight-scaling, zero-weight-removal and equal-weight laws."""
import itertools
import math

import numpy as np

from mc.core import check, close, same
from raytools import translate as tr

RULE = "one case per (data, weights, threshold); each evaluates every quantile of the lattice as scalars and as one array"
Q = [0, .05, .25, 1 / 3, .5, .7, .9, .999, 1 - 5e-6, 1]


def refq(d, w, q, t):
    it = sorted((a, b) for a, b in zip(d, w) if b > t)
    cw = [0.]
    for a, b in it[1:]:
        cw.append(cw[-1] + b)
    x = q * cw[-1]
    if x >= cw[-1]:
        return it[-1][0]
    for k in range(len(it) - 1):
        if cw[k] <= x < cw[k + 1]:
            return it[k][0] + (it[k + 1][0] - it[k][0]) * (x - cw[k]) / (cw[k + 1] - cw[k])
    return it[-1][0]


def one(d, w, t):
    inc = [a for a, b in zip(d, w) if b > t]
    got = np.array([float(np.ravel(tr.weighted_quantile(d, w, q, t))[0]) for q in Q])
    lo, hi = min(inc), max(inc)
    check((got >= lo - 1e-9) & (got <= hi + 1e-9), "outside the included values")
    check(abs(got[0] - lo) < 1e-9 and abs(got[-1] - hi) < 1e-9, "0 and 1 are the extremes")
    check(np.diff(got) >= -1e-9, "not monotone")
    close(tr.weighted_quantile(d, w, np.array(Q), t), got, atol=1e-9, msg="array of quantiles")
    close(tr.weighted_quantile(np.array(d), np.array(w), Q[::-1], t), got[::-1], atol=1e-9, msg="list of quantiles")
    close(np.ravel(tr.weighted_median(d, w, t))[0], got[Q.index(.5)], atol=1e-9, msg="median")
    return got


def g_all(ctx, n, first):
    vals = (0., 1., 2.5)
    ws = (1., .5, 3., 0.)
    for ln in range(1, n + 1):
        for rest in itertools.product(vals, repeat=ln - 1):
            d = (first,) + rest
            for w in itertools.product(ws, repeat=ln):
                for t in (0., .5):
                    if not any(b > t for b in w):
                        continue

                    def go():
                        got = one(d, w, t)
                        ctx.outcome([round(g, 6) for g in got])
                        close(got, [refq(d, w, q, t) for q in Q], atol=1e-9, msg="reference")
                        if t == 0:
                            s = [float(np.ravel(tr.weighted_quantile(d, np.array(w) * 7.5, q))[0]) for q in Q]
                            close(s, got, atol=1e-9, msg="weights scaled")
                        k = [i for i, b in enumerate(w) if b > t]
                        if len(k) < len(d):
                            # excluded items have no influence whatever they are
                            d2 = [x if i in k else 1e6 * (-1) ** i for i, x in enumerate(d)]
                            close(one(d2, w, t), got, atol=1e-9, msg="excluded item matters")
                        if len({w[i] for i in k}) == 1 and len(k) == len(d):
                            close(got, np.quantile(d, Q), atol=1e-9, msg="equal weights")
                    ctx.run([d, w, t], go)


def g_perm(ctx, n):
    vals = (0., 1., 2.5, 1.)
    for ln in range(2, n + 1):
        for d in itertools.combinations_with_replacement((0., 1., 2.5), ln):
            for w in itertools.product((1., 2., 1e-18), repeat=ln):
                def go():
                    base = one(d, w, 0.)
                    for p in itertools.permutations(range(ln)):
                        got = tr.weighted_quantile([d[i] for i in p], [w[i] for i in p], np.array(Q))
                        close(got, base, atol=1e-9, msg=f"order {p}")
                ctx.run([d, w], go)


def g_none(ctx, n):
    for ln in range(1, n + 1):
        for d in itertools.product((0., 1., 2.5), repeat=ln):
            def go():
                close(tr.weighted_quantile(np.array(d), None, np.array(Q)), np.quantile(d, Q), atol=1e-9,
                      msg="no weights")
                m = np.array(d + tuple(i * .5 + 1 for i in d)).reshape(2, -1)
                for q in (*Q, Q, np.array(Q)[:1]):
                    for a in (m, m.T, m[:, :, None], m.tolist()):
                        got = tr.weighted_quantile(a, None, q)
                        same(np.shape(got), np.shape(q), "number of quantiles without weights")
                        close(got, np.quantile(m, q), atol=1e-9, msg="no weights, 2-d data")
                close(tr.weighted_median(m), np.median(m), atol=1e-9, msg="median without weights")
                m = np.array(d + d).reshape(2, -1)
                close(tr.weighted_quantile(m, np.ones((2, ln)), np.array(Q)), np.quantile(m, Q), atol=1e-9,
                      msg="2-d data is flattened")
                # every memory layout of data and weights stands for the same table
                for wv in itertools.product((1., .5, 3.), repeat=ln) if ln < 4 else [(1., .5, 3., 2., 7., .1, 4., 9.)[:ln]]:
                    w = np.array(wv + wv[::-1]).reshape(2, -1)
                    m = np.array(d + tuple(i + .25 for i in d)).reshape(2, -1)
                    e = tr.weighted_quantile(m.ravel().tolist(), w.ravel().tolist(), np.array(Q))
                    close(e, [refq(m.ravel().tolist(), w.ravel().tolist(), q, 0) for q in Q], atol=1e-9, msg="table as a list")
                    forms = (lambda a: a, np.asfortranarray, lambda a: a.tolist(), lambda a: a.ravel())
                    for f in forms:
                        for h in forms:
                            close(tr.weighted_quantile(f(m), h(w), np.array(Q)), e, atol=1e-9, msg="memory layout")
                            close(tr.weighted_quantile(f(m.T.copy()), h(w.T.copy()), np.array(Q)), e, atol=1e-9, msg="transposed table")
                    close(tr.weighted_quantile(m.T, w.T, np.array(Q)), e, atol=1e-9, msg="transposed views")
                    close(tr.weighted_quantile(m[:, ::-1], w[:, ::-1].copy(), np.array(Q)), e, atol=1e-9, msg="reversed view")
            ctx.run([d], go)


def groups(tier):
    n = 4 if tier == "quick" else 5
    return [(f"data{v}", g_all, n, v) for v in (0., 1., 2.5)] + [("perm", g_perm, 4 if n == 4 else 5), ("none", g_none, 5 if n == 4 else 7)]
