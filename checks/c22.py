"""Square coordinates of every lattice point (including the corners and edges just inside) are converted to directions and back for every view direction and view
angle, along every path up to length 4, against the reference geometry; distinct cells give distinct directions and cell areas are equal. For every grid shape, every flat index, jitter rate and mapper the random source
is replaced by one answering its lowest or highest possible value, alternating or mixed extremes (every pattern for up to 2 cells), through any generator
interface: coordinates must stay in their own cell and within the jitter rate of its centre, be the centre without jitter, and convert back to their index. Jittered
pixels and pixel rays likewise. One group uses the real generator only to check that jitter is applied at all."""
import contextlib
import itertools

import numpy as np

from mc import ref
from mc.core import check, close, same
from mc.graph import explore
from raytools.mapper import Mapper, SolidViewMapper, ViewMapper

RULE = "one case per (view, lattice point set, conversion path) or (mapper, grid, jitter, answer pattern); trivial without jitter"

HI = 1 - 1e-9    # 1 - 2**-53 with a jitter rate of one rounds up to the edge shared with the next cell


class Adversary:
    """a random generator that answers extremes chosen by a pattern"""

    def __init__(self, pattern):
        self.pattern = pattern
        self.k = 0
        self.calls = 0
        self.real = np.random.Generator(np.random.PCG64(0))

    def base(self, size):
        self.calls += 1
        n = 1 if size is None else int(np.prod(size))
        b = np.array([self.pattern[(self.k + i) % len(self.pattern)] for i in range(n)])
        self.k += n
        return b[0] if size is None else b.reshape(size)

    def random(self, size=None, *a, **k):
        return self.base(size)

    random_sample = sample = ranf = random

    def uniform(self, low=0., high=1., size=None):
        if size is None and np.ndim(np.asarray(low) + np.asarray(high)):
            size = np.broadcast(low, high).shape
        b = self.base(size)
        r = low + (np.asarray(high) - low) * b
        return r if size is not None else float(r)

    def rand(self, *shape):
        return self.base(shape or None)

    def integers(self, low, high=None, size=None, endpoint=False, **k):
        if high is None:
            low, high = 0, low
        return np.floor(low + (high - low + endpoint) * self.base(size)).astype(int)

    randint = integers

    def __getattr__(self, n):
        return getattr(self.real, n)


@contextlib.contextmanager
def answers(pattern):
    adv = Adversary(pattern)
    keep = {}
    new = dict(default_rng=lambda *a, **k: adv, RandomState=lambda *a, **k: adv, Generator=lambda *a, **k: adv)
    new.update({n: getattr(adv, n) for n in ("random", "random_sample", "uniform", "rand", "randint", "sample", "ranf")})
    for n, f in new.items():
        keep[n] = getattr(np.random, n)
        setattr(np.random, n, f)
    try:
        yield adv
    finally:
        for n, f in keep.items():
            setattr(np.random, n, f)


PATTERNS = dict(low=(0.,), high=(HI,), alt=(0., HI), tla=(HI, 0.), mixed=(0., 0., HI, HI), odd=(HI, 0., 0.), mid=(.5,))


def lattice(n, w):
    e = np.concatenate(([.001], (np.arange(n) + .5) / n, [.999], [.25, .5, .75])) if n > 1 else np.array([.5])
    uv = np.stack(np.meshgrid(e, e, indexing="ij"), -1).reshape(-1, 2)
    if w == 2:
        uv = np.concatenate((uv, uv + [1, 0]))
    # diagonals of the square map have no unique derivative but are still points: keep them
    return uv


def g_uv(ctx, kind, va, ds, n, depth):
    for d in ds:
        vm = (SolidViewMapper if kind == "solid" else ViewMapper)(d, va)
        rv = ref.View(d, va)
        uv = lattice(n, rv.aspect)
        ray = rv.uv(uv)
        edges = [("uv", "ray", "uv2xyz", vm.uv2xyz), ("ray", "uv", "xyz2uv", vm.xyz2uv)]
        explore(ctx, [va, list(d)], dict(uv=uv, ray=ray), edges, "uv", depth, tol=dict(uv=1e-6, ray=1e-6))
        explore(ctx, [va, list(d), "from rays"], dict(uv=uv, ray=ray), edges, "ray", depth, tol=dict(uv=1e-6, ray=1e-6))

        def one():
            k = len(uv) // 3
            close(vm.uv2xyz(uv[k]), ray[k:k + 1], 1e-7, 0, "a single coordinate")
            close(vm.xyz2uv(ray[k:k + 1]), uv[k:k + 1], 1e-7, 0, "a single direction")
            close(np.linalg.norm(vm.uv2xyz(uv), axis=1), np.ones(len(uv)), 1e-9, 0, "unit")
            close(vm.uv2xyz([[.5, .5]])[0], np.array(ref.unit(d)), 1e-7, 0, "the middle of the (first) square is the view direction")
            if rv.aspect == 2:
                close(vm.uv2xyz([[1.5, .5]])[0], -np.array(ref.unit(d)), 1e-7, 0, "the middle of the second square is opposite")
            o = vm.uv2xyz(uv, stackorigin=True)
            same(o.shape, (len(uv), 6), "origin stacked")
            close(o[:, 3:], ray, 1e-7, 0, "origin stacked: directions")
            close(o[:, :3], np.zeros((len(uv), 3)), 0, 0, "origin stacked: origin")
            vo = type(vm)(d, va, origin=(1., -2., .5))
            ow = vo.uv2xyz(uv, stackorigin=True)
            close(ow[:, :3], np.tile((1., -2., .5), (len(uv), 1)), 0, 0, "origin given")
            close(ow[:, 3:], ray, 1e-7, 0, "directions with an origin given")
            h = min(va, 180) / 360
            close(vm.bbox, ((0, 0), (2, 1)) if va == 360 else ((.5 - h, .5 - h), (.5 + h, .5 + h)), 1e-12, 0, "bounding box within the half sphere")
            # cells: all centres distinct and within the view's square
            c = np.stack(np.meshgrid((np.arange(4 * rv.aspect) + .5) / 4, (np.arange(4) + .5) / 4, indexing="ij"), -1).reshape(-1, 2)
            x = vm.uv2xyz(c)
            g = x @ x.T - 2 * np.eye(len(x))
            check(g.max() < 1 - 1e-9, "two cells share a direction")
        ctx.run([va, list(d), "points"], one)


def mapper(kind, d, rate):
    if kind == "plane":
        return Mapper(jitterrate=rate)
    if kind == "solid":
        return SolidViewMapper(d, 180, jitterrate=rate)
    return ViewMapper(d, dict(view180=180, view360=360, view90=90)[kind], jitterrate=rate)


def g_idx(ctx, kind, shapes, rates, pats):
    for shape in shapes:
        n = int(np.prod(shape))
        ij = np.array(list(np.ndindex(*shape)))
        # square cells for the fisheye mappers, unit square for the planar one
        size = np.array(shape) if kind == "plane" else np.array((shape[1], shape[1]))
        for rate in rates:
            vm = mapper(kind, (.2, 1, .3), rate)

            def cell(uv, idx):
                f = uv * size
                k = ij[idx]
                check(np.isfinite(f).all(), "finite")
                check(np.floor(f).astype(int) == k, "a coordinate left its cell: %s for cells %s" % (f[np.any(np.floor(f) != k, -1)][:2],
                                                                                           k[np.any(np.floor(f) != k, -1)][:2]))
                check(np.abs(f - k - .5) <= rate / 2 + 1e-9, "further from the centre than the jitter rate")

            def plain():
                for j in (False,) if rate > 0 else (False, True):
                    close(vm.idx2uv(np.arange(n), shape, j), (ij + .5) / size, 1e-12, 0, "centre of the cell")
                    r = np.arange(n)[::-1]
                    close(vm.idx2uv(r, shape, j), ((ij + .5) / size)[r], 1e-12, 0, "indices in another order")
                    close(np.ravel(vm.idx2uv(n // 2, shape, j)), (ij[n // 2] + .5) / size, 1e-12, 0, "scalar index")
                    close(np.reshape(vm.idx2uv(np.array([n - 1]), shape, j), (-1,)), (ij[n - 1] + .5) / size, 1e-12, 0, "one index")
                if kind == "plane":
                    same(vm.uv2idx(vm.idx2uv(np.arange(n), shape, False), shape), np.arange(n), "index of the centre")
                if shape[0] == shape[1] and kind != "plane":
                    same(vm.uv2idx(vm.idx2uv(np.arange(n), shape, False), shape), np.arange(n), "index of the centre")
            ctx.run([list(shape), rate, "centres"], plain)
            if rate == 0:
                continue
            for pn, pat in pats.items():
                def jit():
                    with answers(pat) as adv:
                        uv = vm.idx2uv(np.arange(n), shape)
                    cell(uv, np.arange(n))
                    if kind == "plane" and pn != "mid":
                        same(vm.uv2idx(uv, shape), np.arange(n), "index of the jittered coordinate")
                    if n <= 2:
                        for p in itertools.product((0., HI), repeat=2 * n):
                            with answers(p):
                                cell(vm.idx2uv(np.arange(n), shape, True), np.arange(n))
                    r = np.arange(n)[::-1]
                    with answers(pat):
                        cell(vm.idx2uv(r, shape), r)
                    with answers(pat):
                        s = vm.idx2uv(n - 1, shape)
                    cell(np.reshape(s, (1, 2)), [n - 1])
                ctx.run([list(shape), rate, pn], jit)


def g_pix(ctx, kind, ress, rates, pats):
    vm = mapper(kind, (.2, 1, .3), .5)
    for res in ress:
        same(vm.pixels(res), np.stack(np.mgrid[0:res, 0:res], 2) + .5, "pixel centres")
        for rate in rates:
            for pn, pat in pats.items():
                def go():
                    with answers(pat):
                        p = vm.pixels(res, jitter=rate)
                    same(p.shape, (res, res, 2), "shape")
                    c = np.stack(np.mgrid[0:res, 0:res], 2)
                    if rate > 0:
                        check(np.floor(p) == c, "a jittered pixel coordinate left its pixel")
                        check(np.abs(p - c - .5) <= rate / 2 + 1e-9, "further from the centre than the jitter rate")
                    else:
                        same(p, c + .5, "without jitter")
                ctx.run([res, rate, pn], go)


def g_applied(ctx):
    """jitter is applied, differently per cell"""
    for kind in ("plane", "view180", "view360", "solid"):
        def go():
            vm = mapper(kind, (0, 1, 0), .5)
            with answers((0., HI)):
                a = vm.idx2uv(np.arange(4), (2, 2))
            b = vm.idx2uv(np.arange(4), (2, 2), False)
            check(np.abs(a - b).min() > .1, "jitter 0.5 does not move the coordinates")
            check(np.unique(np.sign(a - b)).size == 2, "all cells are jittered in the same direction whatever the random numbers")
            x, y = vm.idx2uv(np.arange(16), (4, 4)), vm.idx2uv(np.arange(16), (4, 4))
            check(np.abs(x - y).max() > 0, "two jittered calls return the same coordinates")
            with answers((0., HI)):
                p = vm.pixels(3, .5)
            check(np.abs(p - vm.pixels(3)).min() > .2, "pixel jitter is not applied")
        ctx.run([kind], go)


def groups(tier):
    q = tier == "quick"
    ds = ref.lattice_dirs(1 if q else 2) + [(1e-4, 0, 1), (0, -1e-4, -1), (.13, -.435, 1)]
    vas = (180, 360, 90, 44, 153, 5) if q else (180, 360, 90, 44, 153, 5, 179, 120, 60, 30, 1)
    g = []
    for va in vas:
        for kind in ("view", "solid"):
            if kind == "solid" and va == 360:
                continue
            g.append((f"uv {kind} {va}", g_uv, kind, va, ds, 5 if q else 12, 3 if q else 4))
    m = 5 if q else 9
    shp = [(a, b) for a in range(1, m) for b in range(1, m)]
    rates = (0, .1, .5, 1.) if q else (0, .01, .1, .25, .5, .75, .999, 1.)
    for kind in ("plane", "view180", "view360", "solid", "view90"):
        s = shp if kind == "plane" else [(2 * b, b) for b in range(1, m)] if kind == "view360" else [(b, b) for b in range(1, m)] + [(2, 3), (1, 4)]
        g.append((f"index {kind}", g_idx, kind, s, rates, PATTERNS))
        g.append((f"pixels {kind}", g_pix, kind, range(1, m), rates, PATTERNS))
    return g + [("applied", g_applied)]
