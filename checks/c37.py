"""Two live metric sets (every pair of kinds: base, luminance, colour with three and four channels, 360 degrees, more than one hundred rays with corrected solid angles, low-light, relative threshold also of dark scenes) undergo
every sequence of requests: every ordered pair of all metrics and intermediate results of both objects, and all sequences up to depth 3 (quick) / 4 (thorough) over an alphabet of metrics on which many
others depend, called lists, and replacing an object by a new one with other rays (the old one garbage collected). Every value requested on the way, and all values of both objects at the end, must
equal those of new objects in a pristine process. Called lists of every order and with repetitions return one entry per name."""
import gc
import itertools

import numpy as np

from mc.core import check, close, same
from mc.history import Explorer
from mc import glare
from raytools.evaluate import BaseMetricSet, ColorMetricSet, MetricSet
from raytools.mapper import ViewMapper

RULE = "one case per request sequence; trivial for the empty one"

W4 = (.1, .2, .3, .4)


def raysof(k, n):
    i = np.arange(n)
    g = (i * .618034 * 2 * np.pi + k, np.sqrt((i + .5) / n) * (1.45 if n < 50 else 1.6))
    v = np.stack((np.sin(g[1]) * np.cos(g[0]), np.cos(g[1]), np.sin(g[1]) * np.sin(g[0])), 1)
    o = (1 + (i * 7 + k) % 5) / 10. if n < 50 else np.full(n, 2 * np.pi / n * 1.02)
    l = np.array([.2, 3., 40., 700., 8., 1.])[(i * (k + 1) + k) % 6] * (1 + .01 * i)
    return v, o, l


def make(kind, k):
    """a new object of a kind with the k-th rays"""
    va = 180
    n = 7 + k % 3
    if "many" in kind:
        n = 130 + k
    if "turned" in kind:
        k, n = 1, 8
    v, o, l = raysof(k, n)
    if "dark" in kind:
        l = l * 1e-3
    if "turned" in kind:
        # as far from the view direction, on the other side
        v = v * np.array([-1, 1, -1])
    vm = ViewMapper((0, 1, 0) if k % 2 else (.2, 1, .1), 360 if "360" in kind else va)
    if kind == "base":
        return BaseMetricSet(v, o, l, vm)
    if "color" in kind:
        w = W4 if "4" in kind else (.265, .67, .065)
        c = l[:, None] * np.array([1.2, .9, .5, 2.])[:len(w)] * (1 + .1 * (np.arange(n)[:, None] % 3))
        return ColorMetricSet(v, o, c, vm, vlambda=w)
    return MetricSet(v, o, l, vm, threshold=4. if "rel" in kind else 2000., lowlight="low" in kind, scale=1.7 if "low" in kind else 179., guth="kim" not in kind)


LISTS = (["dgp", "illum"], ["illum", "dgp", "illum"], ["ugp", "avglum", "maxlum", "dgp"])


def names(kind):
    if kind == "base":
        return glare.BASE + ["ctheta", "radians", "pos_idx", "pweight", "pweighted_area"]
    return glare.ALL + ["ctheta", "radians", "pos_idx", "pweight", "pweighted_area", "src_mask", "task_mask", "sources", "background", "source_pos_idx"] + (["irradiance", "rgb"] if "color" in kind else [])


def get(o, m):
    with np.errstate(all="ignore"):
        r = getattr(o, m)
    return [np.array(i) for i in r] if isinstance(r, tuple) else np.array(r)


def battery(kind, o):
    d = {m: get(o, m) for m in names(kind)}
    for l in LISTS:
        l = [i for i in l if i in names(kind)]
        if l:
            d["call " + " ".join(l)] = np.array(o(list(l)))
    d["call"] = np.array(o())
    d["vec"], d["lum"], d["omega"] = np.array(o.vec), np.array(o.lum), np.array(o.omega)
    return d


def explorer(ctx, kinds, ask):
    ops = {}
    for i, kind in enumerate(kinds):
        for m in ask:
            if m.startswith("call"):
                l = m.split()[1:]
                if all(x in names(kind) for x in l):
                    def call(w, i=i, l=l):
                        with np.errstate(all="ignore"):
                            return np.array(w[i](list(l)) if l else w[i]())
                    ops[f"{i}.{m}"] = (call, None, (i, m))
            elif m == "new":
                def new(w, i=i, kind=kind):
                    w[i] = None
                    gc.collect()
                    w[i] = make(kind, 2 + i)
                ops[f"{i}.new"] = (new, lambda s, i=i: s[:i] + ((s[i][0], 2 + i),) + s[i + 1:], None)
            elif m in names(kind):
                ops[f"{i}.{m}"] = (lambda w, i=i, m=m: get(w[i], m), None, (i, m))
    return Explorer(ctx, "/".join(kinds), lambda: [make(k, i) for i, k in enumerate(kinds)], tuple((k, i) for i, k in enumerate(kinds)), ops,
                    lambda w, i: battery(kinds[i], w[i]), lambda k: battery(k[0], make(*k)), rtol=1e-9)


def g_pairs(ctx, kinds, part, parts):
    ask = sorted(set(names(kinds[0]) + names(kinds[1]))) + ["call"]
    ex = explorer(ctx, kinds, ask)
    n = list(ex.ops)
    for j, p in enumerate(itertools.product(n, repeat=2)):
        if j % parts == part:
            ctx.run([kinds, list(p)], ex.sequence, p)


def g_deep(ctx, kinds, ask, depth, part, parts):
    ex = explorer(ctx, kinds, ask)
    n = list(ex.ops)
    ex.run(depth, [x for j, x in enumerate(n) if j % parts == part] + ([""] if part == 0 else []))


def g_lists(ctx, kind, ask, n):
    """one entry (or one per channel) per name in the order asked"""
    o = make(kind, 1)
    for k in range(n + 1):
        for l in itertools.product(ask, repeat=k):
            def go():
                ll = list(l)
                with np.errstate(all="ignore"):
                    got = o(ll)
                    want = np.concatenate([np.atleast_1d(get(make(kind, 1), m)) for m in l]) if l else np.array([])
                check(ll == list(l), "list changed")
                close(got, want, 1e-12, 1e-9, "called list")
                s = make(kind, 1)
                t = type(s)(*given(kind), list(l), **options(kind))
                with np.errstate(all="ignore"):
                    close(t(), want, 1e-12, 1e-9, "list given at construction")
                    close(s(), np.concatenate([np.atleast_1d(get(s, m)) for m in s.defaultmetrics]), 1e-12, 1e-9, "defaults after another object with its own list")
            ctx.run([kind, l], go)


def given(kind):
    o = make(kind, 1)
    v, om, l = raysof(1, 8)
    if "color" in kind:
        w = options(kind)["vlambda"]
        l = l[:, None] * np.array([1.2, .9, .5, 2.])[:len(w)] * (1 + .1 * (np.arange(8)[:, None] % 3))
    return v, om, l, o.vm


def options(kind):
    return {"color4": dict(vlambda=W4), "color": dict(vlambda=(.265, .67, .065)), "metric": dict(threshold=2000.), "base": {}}[kind]


PAIRS = [("metric", "metric"), ("metric", "color"), ("color", "color4"), ("base", "metric"), ("360", "metric"), ("many", "rel"), ("low", "metric"), ("kim", "color"), ("turned", "metric"), ("rel", "metric"), ("dark rel", "dark rel")]


def groups(tier):
    q = tier == "quick"
    g = []
    for n, kinds in enumerate(PAIRS):
        parts = 2 if q else 4
        for p in range(parts):
            g.append((f"pairs {kinds} {p}", g_pairs, kinds, p, parts) if not q or n in (0, 1, 2, 5) else (f"pairs {kinds} {p}", g_pairs, kinds, p + 2 * (n % 2), 4))
    ask = ["illum", "dgp", "ugp", "sources", "new", "call dgp illum"] if q else ["illum", "dgp", "ugp", "threshold", "sources", "pwgcr", "backlum_true", "maxlum", "new", "call dgp illum"]
    for n, kinds in enumerate(PAIRS):
        parts = 2 if q else 8
        for p in range(parts):
            g.append((f"deep {kinds} {p}", g_deep, kinds, ask, 3 if q or n > 2 else 4, p, parts))
    lists = {"base": ["illum", "avglum", "loggcr", "maxlum", "density"], "metric": ["illum", "dgp", "ugp", "threshold", "maxlum"], "color": ["irradiance", "illum", "dgp", "maxlum"], "color4": ["irradiance", "avglum", "ugr", "srcarea"]}
    for k, a in lists.items():
        g.append((f"lists {k}", g_lists, k, a, 3 if q else 4))
    return g
