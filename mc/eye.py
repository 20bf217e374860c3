"""independent model of the glare sensation stages (own convolutions, formulas from the docstrings and the publications they cite); solid angles of pixels are given"""
import math

import numpy as np

from mc import ref


def pupil(ev, age):
    d = 5 - 3 * math.tanh(.4 * math.log10(ev / 1600)) - .043 * (age - 10) * math.exp(-ev / 174)
    return math.pi * (d / 2) ** 2, d


def coef(pd, age, pig):
    af = 1 + (age / 70) ** 4
    b = 9000 - 936 * math.sqrt(af)
    e = math.sqrt(af) / 2000
    pf = 1 / pig - 1
    csa, cla = 1 / (1 + af / pf), 1 / (1 + pf / af)
    q, iq = 1 + (pd / 3.2) ** 2, 1 + (3.2 / pd) ** 2
    c3 = cla / ((1 + 25 * pig) * (1 + 1 / af))
    return [q / (b * pd), iq * (e - 1 / (b * pd)), 1 / (10 + 60 * pig - 5 / af), 1.], [csa / q, csa / iq, c3, cla - c3]


def psf(b, c, phi):
    return c * b / (2 * math.pi * (math.sin(phi) ** 2 + b * b * math.cos(phi) ** 2) ** 1.5)


def lsf(b, c, phi):
    return c * b / (math.pi * (np.sin(phi) ** 2 + b * b * np.cos(phi) ** 2))


def reflect(a, n):
    return np.pad(a, n, mode="symmetric")


def conv(a, k):
    """2d convolution, reflecting borders"""
    h, w = k.shape
    n = max(h, w)
    p = reflect(a, n)
    out = np.zeros(a.shape)
    H, W = a.shape
    # out[n] = sum_i k[i] a[n - (i - size // 2)]
    for i in range(h):
        for j in range(w):
            if k[i, j] != 0:
                di, dj = h // 2 - i, w // 2 - j
                out += k[i, j] * p[n + di:n + di + H, n + dj:n + dj + W]
    return out


def gauss(a, s, trunc=4.):
    r = int(trunc * s + .5)
    x = np.arange(-r, r + 1)
    w = np.exp(-.5 * (x / s) ** 2)
    w /= w.sum()
    for ax in (0, 1):
        a = np.swapaxes(a, 0, ax)
        idx = np.arange(len(a))
        out = np.zeros(a.shape)
        n = len(a)
        for k, wk in zip(x, w):
            i = (idx + k) % (2 * n)
            i = np.where(i >= n, 2 * n - 1 - i, i)
            out += wk * a[i]
        a = np.swapaxes(out, 0, ax)
    return a


def kernel(res, pd, o, oga, va=180):
    """the kernel of the optical spread and its total"""
    win = int(math.ceil(o["fwidth"] * res / va))
    bs, cs = coef(pd, o["age"], o["pigmentation"])
    H = ref.half_angle(o["fwidth"])
    k = np.zeros((win, win))
    for i in range(win):
        for j in range(win):
            rho = math.hypot((i + .5) / win * 2 - 1, (j + .5) / win * 2 - 1)
            if rho < 1:
                k[i, j] = sum(psf(b, c, rho * H) for b, c in zip(bs, cs)) * oga[i, j]
    n = int(o["fwidth"] / .002 / 2) * 2 + 1
    phi = np.linspace(-o["fwidth"] / 2, o["fwidth"] / 2, n) * math.pi / 180
    cap = float(sum(lsf(b, c, phi) for b, c in zip(bs, cs)).sum() * (phi[1] - phi[0]))
    # the rest of the energy stays where it falls: at the origin of the convolution
    c = win // 2
    k[c, c] = 0
    k[c, c] = cap - k.sum()
    return k, cap


def sigma_c(res):
    x = (np.arange(res) + .5) / res * 2 - 1
    X, Y = np.meshgrid(x, x, indexing="ij")
    v = np.where(Y >= 0, Y / .61111, Y / .94444)
    return np.minimum(np.sqrt((X / 1.05556) ** 2 + v ** 2), 1) * (.12 - .009) + .009


def stages(lum, omega, mask, ct, o, ev=None, oga=None, va=180):
    """{stage: array or value}"""
    res = len(lum)
    ppm = res / (60 * va)
    if ev is None:
        ev = float((ct * lum * omega)[mask].sum())
    pa, pd = pupil(ev, o["age"])
    e_g = pa / o["f"] ** 2 * ev / math.pi
    e_r = pa / o["f"] ** 2 * lum
    s = None
    if o["psf"]:
        k, cap = kernel(res, pd, o, oga, va)
        base = (e_r * omega)[mask].sum() * (1 - cap) / omega[mask].sum()
        s = conv(e_r, k) + base
    d = dict(ev=ev, e_g=e_g, pupil_area=pa, pupil_diameter=pd, retinal_irrad=e_r)
    p = e_r
    if s is not None:
        p = d["psf"] = s
    m1 = m2 = p
    if o["adaptmove"]:
        m1 = d["adapt_eye_movement"] = .62 * gauss(p, 4.2341723424 * ppm) + .38 * gauss(p, 14.1421356237 * ppm, 30 / 14.1421356237)
    if o["directmove"]:
        t = .1 / (e_g * o["f"] ** 2) ** .12
        m2 = d["direct_eye_movement"] = gauss(gauss(p, 2 * math.sqrt(30 * t) * ppm), 2 * math.sqrt(250 * t) * ppm)
    with np.errstate(all="ignore"):
        ea = d["local_adaptation"] = 10 ** (.8 * np.where(m1 > 0, np.log10(m1), 0) + .2 * math.log10(e_g))
    sg = (5.701055 ** (1 / 2.55) + ea ** (1 / 2.55)) ** 2.55
    r = d["response_ratio"] = m2 ** .74 / (m2 ** .74 + sg ** .74)
    st = [math.exp(math.log(.009) + (math.log(.12) - math.log(.009)) * i / 30) for i in range(31)]
    ub = [(a + b) / 2 for a, b in zip(st, st[1:])] + [1.]
    lin = np.zeros(r.shape)
    sc = sigma_c(res)
    border = np.zeros(r.shape, bool)
    lo = 0.
    for s_, u in zip(st, ub):
        inc = (sc >= lo) & (sc < u)
        border |= np.abs(sc - u) < 1e-9
        if inc.any():
            g = gauss(r, s_ * ppm * 60) - .67 * gauss(r, s_ * 3.5 * ppm * 60)
            lin[inc] = g[inc]
        lo = u
    d["response_lin"] = lin
    d["border"] = border
    on, off = 1 / (1 + np.exp(-22 * (lin - .25))), 1 / (1 + np.exp(22 * (lin + .25)))
    d["response"] = np.stack((np.where(mask, on, 0), np.where(mask, off, 0)))
    w = lum ** 4 * omega
    d["ecc"] = float((sc * w).sum() / w.sum())
    x = (d["ecc"] - .009) / (.12 - .009)
    p = sum(c * x ** i for i, c in enumerate((33.12797281708, 2.28728777265947, -104.614198351476, -275.450102180091, 1587.82553529394, -2570.6813747583033, 1837.1741161137818, -499.849190278)))
    d["raw"] = float((d["response"] ** 4 * omega).sum() ** .25)
    d["gss"] = d["raw"] * (1 if o["raw"] else p)
    return d
