"""independent scalar model of the glare metrics for a handful of rays (no shared code with the library)"""
import math

import numpy as np

from mc import ref


def position(d, v, guth=True):
    """position index of direction v for the view direction d (front hemisphere, or behind for guth)"""
    left, up, f = ref.rot_basis(d)
    v = ref.unit(v)
    x, y, z = -ref.dot(left, v), ref.dot(up, v), ref.dot(f, v)
    sigma = math.degrees(math.atan2(math.hypot(x, y), z))
    if sigma < 1e-7:
        return 1.
    tau = math.degrees(math.atan2(abs(x), y))
    if not guth:
        t = tau
        a = -.000009 * t ** 3 + .0014 * t ** 2 + .0866 * t + 21.633
        b = -.000009 * t ** 3 + .0013 * t ** 2 + .0853 * t + 8.772
        return math.exp((sigma - a) / b)
    if z < 0:
        return 16.
    if y < 0:
        tau = 90.
        sigma = math.degrees(math.atan2(math.hypot(x, 1.15 * y), z))
    p = math.exp((35.2 - .31889 * tau - 1.22 * math.exp(-2 * tau / 9)) / 1000 * sigma + (21 + .26667 * tau - .002963 * tau * tau) / 100000 * sigma ** 2)
    return min(p, 16.)


def metrics(d, va, v, o, l, scale=179., threshold=2000., guth=True, tradius=30., lowlight=False, weights=None, pidx=None):
    """{name: value}; l luminances or (with weights) channel tuples. Undefined values are nan"""
    H = ref.half_angle(va)
    rays = []
    for i in range(len(v)):
        t = ref.angle(d, v[i])
        if va == 360 or t < H:
            lum = l[i] if weights is None else sum(a * b for a, b in zip(l[i], weights))
            rays.append((v[i], t, float(o[i]), float(lum), i))
    with np.errstate(all="ignore"):
        f = np.float64
        n = len(rays)
        A = f(sum(r[2] for r in rays))
        P = [(pidx or position)(d, r[0], guth) for r in rays]
        cos = [math.cos(r[1]) for r in rays]
        m = dict(view_area=A)
        E = m["illum"] = f(sum(c * r[3] * r[2] for c, r in zip(cos, rays)) * scale)
        avg = m["avglum"] = f(sum(r[3] * r[2] for r in rays)) * scale / A
        m["maxlum"] = f(max([r[3] for r in rays], default=0.) * scale)
        m["avgraylum"] = f(sum(r[3] for r in rays)) * scale / f(n)
        m["density"] = f(n) / A
        pw = [r[2] / p ** 2 for r, p in zip(rays, P)]
        PW = f(sum(pw))
        pavg = m["pwavglum"] = f(sum(r[3] * w for r, w in zip(rays, pw))) * scale / PW
        m["gcr"] = f(sum(r[3] ** 2 * r[2] for r in rays)) * scale ** 2 / A / avg ** 2 if avg > 0 else f(1)
        m["pwgcr"] = f(sum(r[3] ** 2 * w for r, w in zip(rays, pw))) * scale ** 2 / PW / pavg ** 2 if pavg > 0 else f(1)
        m["loggcr"], m["logpwgcr"] = np.log10(m["gcr"]), np.log10(m["pwgcr"])
        task = [r for r in rays if math.degrees(r[1]) < tradius]
        m["tasklum"] = f(sum(r[3] * r[2] for r in task)) * scale / f(sum(r[2] for r in task))
        thr = m["threshold"] = f(threshold) if threshold > 100 else m["tasklum"] * threshold
        src = [r[3] * scale > thr for r in rays]
        m["srcarea"] = f(sum(r[2] for r, s in zip(rays, src) if s))
        m["srcillum"] = f(sum(r[2] * r[3] * c for r, s, c in zip(rays, src, cos) if s) * scale)
        back = [r for r, s in zip(rays, src) if not s]
        m["backlum_true"] = f(sum(r[2] * r[3] for r in back)) * scale / f(sum(r[2] for r in back))
        lb = m["backlum"] = f(sum(r[2] * r[3] * c for r, s, c in zip(rays, src, cos) if not s) * scale) / math.pi
        pws = m["pwsl2"] = f(sum(r[3] ** 2 * r[2] / p ** 2 for r, s, p in zip(rays, src, P) if s) * scale ** 2)
        m["dgp_t1"] = 5.87e-5 * E
        m["log_gc"] = np.log10(1 + pws / E ** 1.87)
        m["dgp_t2"] = .0918 * m["log_gc"]
        ll = 1.
        if lowlight and E < 500:
            ll = math.exp(.024 * E - 4) / (1 + math.exp(.024 * E - 4))
        m["dgp"] = np.minimum(ll * (m["dgp_t1"] + m["dgp_t2"] + .16), 1.)
        m["ugr"] = np.maximum(0, 8 * np.log10(.25 * pws / lb))
        m["ugp"] = (1 + 2 / 7 * 10. ** (-(m["ugr"] + 5) / 40)) ** -10
        if weights is not None:
            m["irradiance"] = np.array([sum(cos[j] * l[r[4]][k] * r[2] for j, r in enumerate(rays)) * scale for k in range(len(weights))])
    return m, src, n


BASE = ["illum", "avglum", "loggcr", "gcr", "pwgcr", "logpwgcr", "density", "avgraylum", "pwavglum", "maxlum"]
ALL = BASE + ["ugp", "dgp", "tasklum", "backlum", "dgp_t1", "log_gc", "dgp_t2", "ugr", "threshold", "pwsl2", "view_area", "backlum_true", "srcillum", "srcarea"]


def direction(d, up_angle, angle):
    """direction at an angle (degrees) from d, towards the position up_angle (degrees clockwise from up as seen by the viewer)"""
    left, up, f = ref.rot_basis(d)
    a, t = math.radians(angle), math.radians(up_angle)
    return tuple(math.cos(a) * f[i] + math.sin(a) * (math.cos(t) * up[i] - math.sin(t) * left[i]) for i in range(3))
