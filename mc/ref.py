"""independent plain-Python reference models (scalar, no numpy logic shared
with the code under test)"""
import math

import numpy as np

PI = math.pi


def unit(v):
    n = math.sqrt(sum(i * i for i in v))
    return tuple(i / n for i in v)


def dot(a, b):
    return sum(i * j for i, j in zip(a, b))


def cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2],
            a[0] * b[1] - a[1] * b[0])


def angle(a, b):
    """stable angle between vectors (radians)"""
    a, b = unit(a), unit(b)
    return math.atan2(math.sqrt(dot(cross(a, b), cross(a, b))), dot(a, b))


def lattice_dirs(r, minr=1):
    """all distinct directions of the integer lattice within the cube of radius r"""
    out = []
    seen = set()
    rng = sorted(range(-r, r + 1), key=abs)
    for x in rng:
        for y in rng:
            for z in rng:
                if (x, y, z) == (0, 0, 0):
                    continue
                g = math.gcd(math.gcd(abs(x), abs(y)), abs(z))
                k = (x // g, y // g, z // g)
                if k not in seen:
                    seen.add(k)
                    out.append(k)
    return out


# -- Shirley-Chiu square <-> sphere ----------------------------------------
def disk(u, v):
    """square [0,1]^2 -> (r, phi, sign) of the unit disk, r>=0"""
    a, b = 2 * u - 1, 2 * v - 1
    if a == 0 and b == 0:
        return 0., 0.
    if abs(a) > abs(b):
        r = abs(a)
        phi = PI / 4 * b / a
        if a < 0:
            phi += PI
    else:
        r = abs(b)
        phi = PI / 2 - PI / 4 * a / b
        if b < 0:
            phi += PI
    return r, phi


def uv2xyz(u, v, axes=(0, 1, 2), xsign=1):
    low = u > 1
    r, phi = disk(u - 1 if low else u, v)
    s = r * math.sqrt(2 - r * r)
    n = -1 if low else 1
    out = [0, 0, 0]
    out[axes[0]] = xsign * n * math.cos(phi) * s
    out[axes[1]] = math.sin(phi) * s
    out[axes[2]] = n * (1 - r * r)
    return tuple(out)


# -- view geometry -----------------------------------------------------------
def rot_basis(d):
    """rows of the proper rotation taking direction d to +z with world z up in
    the half-plane of +y: (left, up, forward); for d = +-z the convention
    documented for rmtx_yp (identity / half turns)"""
    f = unit(d)
    if math.hypot(f[0], f[1]) < 1e-9:
        if f[2] > 0:
            return (1., 0., 0.), (0., 1., 0.), (0., 0., 1.)
        return (-1., 0., 0.), (0., 1., 0.), (0., 0., -1.)
    left = unit((-f[1], f[0], 0.))
    return left, cross(f, left), f


def to_view(d, v):
    """components of v in the rotated frame of d"""
    return tuple(dot(b, v) for b in rot_basis(d))


def rot_z(v, deg):
    c, s = math.cos(math.radians(deg)), math.sin(math.radians(deg))
    return (c * v[0] - s * v[1], s * v[0] + c * v[1], v[2])


def arr(f, pts, *a, **k):
    return np.array([f(*p, *a, **k) for p in pts], dtype=float)


# -- vectorised reference of a fisheye view ---------------------------------
def basis(d):
    return np.array(rot_basis(tuple(float(i) for i in d)))


def half_angle(va):
    """visible half angle (radians) of a view of va degrees (at most 180), see DESIGN (views below 180 degrees)"""
    if va == 360:
        va = 180
    a = math.radians(va / 2)
    chord = 2 * math.sin(a / 2)
    return a * (math.sqrt(2) / (PI / 2)) / (chord / a)


class View:
    """reference geometry of the angular fisheye view (d, va): image plane coordinates are 0..1 left to right, bottom to top (1..2 for the rear half of a
    360 degree view)"""

    def __init__(self, d, va, law="angular"):
        self.d, self.va, self.law = d, va, law
        self.B = basis(d)
        self.H = half_angle(va)
        self.aspect = 2 if va == 360 else 1
        self.rear = View([-i for i in d], 180, law) if va == 360 else None

    def r2t(self, r):
        """radius (1 at the image edge) to angle"""
        if self.law == "angular":
            return r * self.H
        if self.law == "equisolid":
            return 2 * np.arcsin(np.clip(r * math.sin(self.H / 2), -1, 1))
        # what the code does for equisolid views (known finding): the inverse law on a 180 degree basis
        s = math.radians(min(self.va, 180) / 2)
        return np.sin(r * s / 2) * PI / math.sqrt(2) * self.H / s

    def ray(self, xy):
        """image coordinates (n,2) to unit directions"""
        xy = np.asarray(xy, float)
        out = np.empty((len(xy), 3))
        rear = (xy[:, 0] >= 1) if self.rear else np.zeros(len(xy), bool)
        if rear.any():
            out[rear] = self.rear.ray(xy[rear] - [1, 0])
        p = (xy[~rear] - .5) * 2
        r = np.hypot(p[:, 0], p[:, 1])
        t = self.r2t(r)
        with np.errstate(all="ignore"):
            k = np.where(r > 0, np.sin(t) / r, 0)
        loc = np.stack((-p[:, 0] * k, p[:, 1] * k, np.cos(t)), 1)
        out[~rear] = loc @ self.B
        return out

    def angle(self, v):
        v = np.asarray(v, float)
        v = v / np.linalg.norm(v, axis=-1, keepdims=True)
        f = self.B[2]
        return np.arctan2(np.linalg.norm(np.cross(v, f), axis=-1), v @ f)

    def xy(self, v):
        """unit directions to image coordinates (angular law)"""
        assert self.law == "angular"
        v = np.asarray(v, float)
        loc = v @ self.B.T
        t = self.angle(v)
        h = np.hypot(loc[:, 0], loc[:, 1])
        with np.errstate(all="ignore"):
            k = np.where(h > 0, t / self.H / h, 0)
        out = .5 + .5 * np.stack((-loc[:, 0] * k, loc[:, 1] * k), 1)
        if self.rear:
            m = t >= self.H
            out[m] = self.rear.xy(v[m]) + [1, 0]
        return out

    def pixels(self, res, off=(.5, .5)):
        """(n,2) pixel coordinates of the whole image, row by row"""
        g = np.stack(np.mgrid[0:res * self.aspect, 0:res], 2).reshape(-1, 2)
        return g + np.asarray(off)

    def uv(self, uv):
        """square coordinates to directions"""
        uv = np.asarray(uv, float)
        if self.va != 360:
            s = self.va / 180
            uv = .5 - s / 2 + uv * s
        loc = np.array([uv2xyz(a, b, xsign=-1) for a, b in uv])
        return loc @ self.B


def solid_angle_quad(a, b, c, d):
    """solid angle of spherical quadrilaterals with unit corners (n,3)"""
    def tri(p, q, r):
        num = np.abs(np.einsum("ij,ij->i", p, np.cross(q, r)))
        den = 1 + np.einsum("ij,ij->i", p, q) + np.einsum("ij,ij->i", q, r) + np.einsum("ij,ij->i", r, p)
        return 2 * np.arctan2(num, den)
    return tri(a, b, c) + tri(a, c, d)


def xyz2uv(v, xsign=-1):
    """inverse of uv2xyz: unit vectors (n,3) to square coordinates (n,2)"""
    out = []
    for x, y, z in np.asarray(v, float):
        n = -1 if z < 0 else 1
        r = math.sqrt(max(0., 1 - abs(z)))
        phi = math.atan2(y, xsign * n * x)
        if phi < -PI / 4:
            phi += 2 * PI
        q = PI / 4
        if phi < q:
            a, b = r, phi * r / q
        elif phi < 3 * q:
            a, b = -(phi - 2 * q) * r / q, r
        elif phi < 5 * q:
            a, b = -r, -(phi - 4 * q) * r / q
        else:
            a, b = (phi - 6 * q) * r / q, -r
        out.append(((a + 1) / 2 + (z < 0), (b + 1) / 2))
    return np.array(out).reshape(-1, 2)
