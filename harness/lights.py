"""Random lights with independent plain-Python references."""
import os
import math
import contextlib
import io
import numpy as np
import PIL.Image
import gen as g
import pytracer.geometry as geo
from pytracer import Spectrum
from pytracer.transform import Transform
import pytracer.light as L

PI = math.pi


def colour(r, hi=8.):
    k = r.random()
    if k < .15:
        v = [0., 0., 0.]
        v[r.randrange(3)] = r.uniform(.1, hi)
        return v
    if k < .3:
        return [r.uniform(.1, hi)] * 3
    return [r.uniform(.05, hi) for _ in range(3)]


def spec(v):
    return Spectrum.from_rgb(np.array(v, dtype=float))


def rgb(s):
    return [float(x) for x in np.asarray(s, dtype=float).ravel()]


def lum(v):
    return 0.212671 * v[0] + 0.715160 * v[1] + 0.072169 * v[2]


def placement(r, mirror=True):
    T, M, d = g.rigid(r)
    if mirror and r.random() < .2:
        s = [1., 1., 1.]
        s[r.randrange(3)] = -1.
        return T * Transform.scale(*s), g.mm(M, g.m_scale(s)), d + "*mirror(%s)" % s
    return T, M, d


def image(r, kind=None):
    """(h, w, 3) of 0..255 with sides powers of two"""
    h, w = 2 ** r.choice([0, 1, 2, 2, 3, 3, 4]), 2 ** r.choice([0, 1, 2, 2, 3, 3, 4])
    kind = kind or r.choice(["noise", "noise", "spot", "const", "sparse", "grey"])
    if kind == "const":
        a = np.zeros((h, w, 3)) + np.array([r.randrange(1, 256) for _ in range(3)])
    elif kind == "spot":
        a = np.zeros((h, w, 3))
        a[r.randrange(h), r.randrange(w)] = [r.randrange(60, 256) for _ in range(3)]
    elif kind == "sparse":
        a = np.zeros((h, w, 3))
        for _ in range(max(1, h * w // 6)):
            a[r.randrange(h), r.randrange(w)] = [r.randrange(20, 256) for _ in range(3)]
    elif kind == "grey":
        a = np.array([[[r.randrange(10, 256)] * 3 for _ in range(w)] for _ in range(h)], dtype=float)
    else:
        a = np.array([[[r.randrange(0, 256) for _ in range(3)] for _ in range(w)] for _ in range(h)], dtype=float)
        if a.max() == 0:
            a[0, 0] = 200
    return a, kind


def save(a, folder, name="map.png"):
    p = os.path.join(folder, name)
    PIL.Image.fromarray(a.astype('uint8'), mode="RGB").save(p, 'PNG')
    return p


def bilinear(a, s, t):
    """image value at (s,t) in [0,1]^2, texel centres at half integers, repeated"""
    h, w = a.shape[:2]
    x, y = s * w - .5, t * h - .5
    i, j = int(math.floor(x)), int(math.floor(y))
    dx, dy = x - i, y - j
    v = [0., 0., 0.]
    for (q, wq) in ((i, 1 - dx), (i + 1, dx)):
        for (p, wp) in ((j, 1 - dy), (j + 1, dy)):
            e = a[p % h, q % w]
            for k in range(3):
                v[k] += wq * wp * float(e[k])
    return v


def bilinear_grad(a, h, w):
    return float(a.max())


def sph(wl):
    """(s, t) of a unit direction, z up"""
    phi = math.atan2(wl[1], wl[0])
    if phi <= 0:
        phi += 2 * PI
    return phi / (2 * PI), math.acos(max(-1., min(1., wl[2]))) / PI


class Lit(object):
    """a light and its reference: kind, profile(world direction leaving it), pos"""

    def __init__(self, r, kind, folder, scaled=False, place=None):
        self.kind = kind
        self.T, self.M, self.desc = place or placement(r)
        if scaled and r.random() < .35:
            f = g.scales(r)
            self.T, self.M, self.desc = self.T * Transform.scale(*f), g.mm(self.M, g.m_scale(f)), self.desc + "*scale(%s)" % f
        self.inv = g.m_inv_affine(self.M)
        self.pos = g.m_pt(self.M, [0., 0., 0.])
        self.I = colour(r)
        self.info = dict(light=kind, l2w=self.desc, I=self.I)
        self.img = None
        with contextlib.redirect_stdout(io.StringIO()):
            self._build(r, kind, folder)

    def _build(self, r, kind, folder):
        I = spec(self.I)
        if kind == "point":
            self.light = L.PointLight(self.T, I)
        elif kind == "spot":
            self.width = r.choice([r.uniform(5, 60), r.uniform(60, 120), 90.])
            self.falloff = self.width * r.choice([.05, .5, .9, r.uniform(.02, .98)])
            self.light = L.SpotLight(self.T, I, self.width, self.falloff)
            self.info.update(width=self.width, falloff=self.falloff)
        elif kind == "projection":
            self.fov = r.choice([r.uniform(10, 80), r.uniform(80, 140), 90.])
            self.info.update(fov=self.fov)
            path = self._img(r, folder)
            self.light = L.ProjectionLight(self.T, I, path, self.fov)
            h, w = self.img.shape[:2] if self.img is not None else (1, 1)
            a = w / float(h)
            self.half = (a, 1.) if a > 1 else (1., 1. / a)
        elif kind == "gonio":
            path = self._img(r, folder)
            self.light = L.GonioPhotometricLight(self.T, I, path)
        elif kind == "distant":
            self.dir = [x * r.choice([1., .2, 5.]) for x in g.unit(r)]
            self.light = L.DistantLight(self.T, I, g.V(self.dir))
            self.wi = g.nrm(g.m_vec(self.M, self.dir))
            self.info.update(dir=self.dir)
        elif kind == "infinite":
            if r.random() < .25:
                self.img = np.array([[self.I]])
                self.imgkind = "constant-colour"
                self.light = L.InfiniteAreaLight(self.T, I, 1)
            else:
                path = self._img(r, folder, always=True)
                self.I = [r.uniform(.2, 2.) for _ in range(3)] if r.random() < .6 else [1.] * 3
                I = spec(self.I)
                self.info.update(I=self.I)
                self.img = self.img * np.array(self.I)
                self.light = L.InfiniteAreaLight(self.T, I, 1, path)
            self.info.update(img=self.imgkind, shape=self.img.shape)

    def _img(self, r, folder, always=False):
        if not always and r.random() < .12:
            self.info.update(img="missing file")
            self.imgkind = "missing"
            return os.path.join(folder, "nothing-here.png")
        self.img, self.imgkind = image(r)
        self.info.update(img=self.imgkind, shape=self.img.shape)
        return save(self.img, folder)

    def local(self, w):
        return g.m_vec(self.inv, w)

    def profile(self, w):
        """(factor for light leaving along the unit world direction w, too close to an edge to call)"""
        wl = self.local(w)
        k = self.kind
        if k == "point":
            return [1.] * 3, False
        if k in ("spot", "gonio"):
            wl = g.nrm(wl)
        if k == "spot":
            cw, cf = math.cos(math.radians(self.width)), math.cos(math.radians(self.falloff))
            ct = wl[2]
            if ct < cw:
                return [0.] * 3, False
            if ct > cf:
                return [1.] * 3, False
            d = (ct - cw) / (cf - cw)
            return [d ** 4] * 3, False
        if k == "projection":
            if abs(wl[2]) < 5e-3:
                return [0.] * 3, True
            if wl[2] < 0:
                return [0.] * 3, False
            f = 1. / math.tan(math.radians(self.fov) / 2.)
            x, y = wl[0] / wl[2] * f, wl[1] / wl[2] * f
            hx, hy = self.half
            near = abs(abs(x) - hx) < 1e-6 * (1 + abs(x)) or abs(abs(y) - hy) < 1e-6 * (1 + abs(y))
            if abs(x) > hx or abs(y) > hy:
                return [0.] * 3, near
            if self.img is None:
                return [1.] * 3, near
            return bilinear(self.img, (x + hx) / (2 * hx), (y + hy) / (2 * hy)), near
        if k == "gonio":
            if self.img is None:
                return [1.] * 3, False
            s, t = sph([wl[0], wl[2], wl[1]])
            # at the poles the azimuth is rounding
            return bilinear(self.img, s, t), math.hypot(wl[0], wl[2]) < 1e-6
        if k == "infinite":
            # arriving along -w, i.e. seen along w
            s, t = sph(wl)
            return bilinear(self.img, s, t), math.hypot(wl[0], wl[1]) < 1e-6 * g.ln(wl)
        raise ValueError(k)


def direction_in(r, lit):
    """a world direction leaving the light, favouring its lit region"""
    if r.random() < .25 or lit.kind in ("point", "gonio", "infinite"):
        return g.unit(r)
    lim = lit.width * 1.15 if lit.kind == "spot" else min(89.5, 1.2 * math.degrees(math.atan(math.tan(math.radians(lit.fov) / 2) * math.hypot(*lit.half))))
    th = math.radians(r.uniform(0, min(180., lim)))
    ph = r.uniform(0, 2 * PI)
    return g.nrm(g.m_vec(lit.M, [math.sin(th) * math.cos(ph), math.sin(th) * math.sin(ph), math.cos(th)]))
