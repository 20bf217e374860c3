"""Every sequence (order and repetition matter) of points from small point sets - a chain whose neighbours are within the tolerance but
not the ends, a square with its centre, two clusters, all with duplicates - is culled at several tolerances, as array, as a
Fortran-ordered view and as a prebuilt tree, and compared with the first-come greedy model and with the three predicates of the
property; grids and spheres of up to a few thousand points are compared with the model in several orders."""
import itertools

import numpy as np
from scipy.spatial import cKDTree

from mc import ref
from mc.core import check, same
from raytools import translate as tr

RULE = "one case per (point set, sequence of points); each is culled at every tolerance and input form"
SETS = dict(
    chain=np.array([(0., 0, 1), (1, 0, 1), (2, 0, 1), (3, 0, 1), (4, 0, 1)]),
    square=np.array([(0., 0, 0), (2, 0, 0), (0, 2, 0), (2, 2, 0), (1, 1, 0)]),
    clusters=np.array([(0., 0, 0), (.3, 0, 0), (0, .3, .1), (9, 0, 0), (9, .4, 0)]),
    line2=np.array([(0., 0), (.7, .7), (1.5, 1.5), (1.5, 0), (-1, 0)]))
TOLS = dict(chain=(0, .5, 1.2, 2.3), square=(.9, 1.5, 2.2), clusters=(.2, .35, .6, 20), line2=(.8, 1.01, 1.6))


def greedy(p, tol):
    keep = []
    flt = np.full(len(p), True)
    for i in range(len(p)):
        if keep and (np.linalg.norm(p[keep] - p[i], axis=1) <= tol).any():
            flt[i] = False
        else:
            keep.append(i)
    return flt


def one(p, tol):
    e = greedy(p, tol)
    got = tr.cull_vectors(p, tol)
    same(got, e, f"tol {tol}: mask differs from first-come greedy set")
    check(np.asarray(got).dtype == bool, "mask not boolean")
    kept = p[got]
    d = np.linalg.norm(kept[:, None] - kept[None], axis=2) + 1e9 * np.eye(len(kept))
    check(d > tol, "two kept vectors within the tolerance")
    check(got[0], "first vector dropped")
    return e


def g_seq(ctx, name, first, n):
    pts = SETS[name]
    for ln in range(1, n + 1):
        for rest in itertools.product(range(len(pts)), repeat=ln - 1):
            ix = (first,) + rest
            p = pts[list(ix)]

            def go():
                for t in TOLS[name]:
                    e = one(p, t)
                if ln <= 4:
                    same(tr.cull_vectors(cKDTree(p), t), e, "prebuilt tree")
                    same(tr.cull_vectors(np.asfortranarray(p), t), e, "memory order")
                    same(tr.cull_vectors(p.tolist(), t), e, "list input")
            ctx.run([name, ix], go)


def g_cloud(ctx, n):
    g = np.array(list(itertools.product(range(n), repeat=3)), dtype=float)
    s = np.array([ref.unit(d) for d in ref.lattice_dirs(5)])
    for nm, pts, tols in (("grid", g, (.5, 1.1, 1.5, 1.8, 2.9)), ("sphere", s, (.01, .05, .13, .4, 1.9))):
        orders = dict(fwd=np.arange(len(pts)), rev=np.arange(len(pts))[::-1],
                      stride=np.concatenate([np.arange(k, len(pts), 7) for k in range(7)]),
                      twice=np.tile(np.arange(len(pts)), 2))
        for o, ix in orders.items():
            for t in tols:
                def go():
                    e = greedy(pts[ix], t)
                    same(tr.cull_vectors(pts[ix], t), e, "mask differs from first-come greedy set")
                    same(tr.cull_vectors(cKDTree(pts[ix]), t), e, "prebuilt tree")
                ctx.run([nm, o, t], go)


def g_edge(ctx, n):
    """chains whose spacing is just within or just outside the tolerance"""
    for t in (1e-6, .01, .5, 3.):
        for r in (1e-9, 1e-6, 1e-4, 1e-3, 1e-2):
            for dim in (2, 3):
                d = np.array([(1, 0, 0), (0, 1, 0), (3, 4, 0), (2, 3, 6)][:4 if dim == 3 else 3], float)[:, :dim]
                for k, v in enumerate(d):
                    v = v / np.linalg.norm(v)
                    for signs in itertools.chain(*[itertools.product((-1, 1), repeat=m) for m in range(1, n + 1)]):
                        p = np.cumsum([0 * v] + [v * t * (1 + s * r) for s in signs], 0)

                        def go():
                            one(p, t)
                            one(p[::-1], t)
                            one(np.concatenate((p, p)), t)
                            one(np.concatenate((p, p + 100 * t, p[::-1] - 100 * t)), t)
                        ctx.run(["edge", t, r, dim, k, signs], go)


def groups(tier):
    n = 5 if tier == "quick" else 7
    return [(f"{k}{i}", g_seq, k, i, n) for k in SETS for i in range(5)] + \
        [("edge", g_edge, 4 if tier == "quick" else 7), ("clouds", g_cloud, 7 if tier == "quick" else 11)]
