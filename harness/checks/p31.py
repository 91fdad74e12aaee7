"""P31 image pyramids and image textures"""
import os
import math
import shutil
import tempfile
from core import tasklist
import gen as g
import numpy as np
import PIL.Image
import pytracer
from pytracer import FLOAT, Spectrum
import pytracer.geometry as geo
import pytracer.spectral as spec
from pytracer.texture.utility import MIPMap, ImageWrap
from pytracer.texture.texture.image import ImageTexture
from pytracer.texture.texturemap import UVMapping2D

TASKS, task = tasklist()
RULE = "images of numbers and colours 1..16 x 1..16, 8-bit and real, square or not, power of two or not; three wrap modes; point, isotropic and elliptical lookups inside, outside and at edges; distinct by size, content, wrap and lookup"
WRAPS = [ImageWrap.REPEAT, ImageWrap.BLACK, ImageWrap.CLAMP]


def size(r, p2):
    if p2:
        return 2 ** r.choice([0, 1, 1, 2, 2, 3, 3, 4])
    return r.choice([3, 5, 6, 7, 9, 10, 12, 2, 4, 8, 1])


def picture(r, h, w, colour):
    """(h, w, channels) reference"""
    k = 3 if colour else 1
    t = r.random()
    if t < .2:
        v = [r.uniform(.01, 5.) for _ in range(k)]
        a = np.array([[v for _ in range(w)] for _ in range(h)])
    elif t < .35:
        a = np.zeros((h, w, k))
        a[r.randrange(h), r.randrange(w)] = [r.uniform(.1, 9.) for _ in range(k)]
    else:
        s = 10 ** r.uniform(-2, 2)
        a = np.array([[[r.random() * s for _ in range(k)] for _ in range(w)] for _ in range(h)])
    return a


def build(r, a, colour, wrap, trilinear=False, max_aniso=8.):
    h, w = a.shape[:2]
    if colour:
        img = np.empty((h, w), dtype=object)
        for t in range(h):
            for s in range(w):
                img[t, s] = spec.RGBSpectrum(a[t, s])
        return MIPMap(spec.RGBSpectrum, img, trilinear, max_aniso, wrap)
    k = r.random()
    if k < .4:
        img = a[:, :, 0].copy()
    else:
        img = np.empty((h, w), dtype=object)
        for t in range(h):
            for s in range(w):
                img[t, s] = FLOAT(a[t, s, 0])
    return MIPMap(FLOAT, img, trilinear, max_aniso, wrap)


def val(x, colour):
    v = np.array(x, dtype=float).ravel()
    return v


def wrapped(a, t, s, wrap):
    h, w = a.shape[:2]
    if wrap == ImageWrap.REPEAT:
        return a[t % h, s % w]
    if wrap == ImageWrap.CLAMP:
        return a[min(max(t, 0), h - 1), min(max(s, 0), w - 1)]
    if 0 <= t < h and 0 <= s < w:
        return a[t, s]
    return np.zeros(a.shape[2])


def bilinear(a, s, t, wrap):
    h, w = a.shape[:2]
    x, y = s * w - .5, t * h - .5
    i, j = int(math.floor(x)), int(math.floor(y))
    u, v = x - i, y - j
    return ((1 - u) * (1 - v) * wrapped(a, j, i, wrap) + u * (1 - v) * wrapped(a, j, i + 1, wrap) +
            (1 - u) * v * wrapped(a, j + 1, i, wrap) + u * v * wrapped(a, j + 1, i + 1, wrap))


def pyramid(a):
    """box averages"""
    out = [a]
    while max(a.shape[:2]) > 1:
        h, w = a.shape[:2]
        H, W = max(1, h // 2), max(1, w // 2)
        b = np.zeros((H, W, a.shape[2]))
        for t in range(H):
            for s in range(W):
                b[t, s] = a[t * h // H:(t + 1) * h // H, s * w // W:(s + 1) * w // W].mean(axis=(0, 1))
        out.append(b)
        a = b
    return out


def coord(r):
    k = r.random()
    if k < .6:
        return r.random()
    if k < .75:
        return r.choice([0., 1., .5, .25, 1e-9, 1 - 1e-9])
    return r.uniform(-2.5, 3.5)


def setup(c, p2=True, colour=None, a=None, **kw):
    r = c.rng
    colour = r.random() < .5 if colour is None else colour
    h, w = size(r, p2), size(r, p2)
    if r.random() < .4:
        w = h
    if a is None:
        a = picture(r, h, w, colour)
    wrap = r.choice(WRAPS)
    c.note(h=a.shape[0], w=a.shape[1], colour=colour, wrap=wrap.name, a=a)
    c.sig(a.shape[0], a.shape[1], colour, wrap.name, float(a.sum()))
    return a, colour, wrap, build(r, a, colour, wrap, **kw)


@task(quick=300, thorough=6000, min_events=6000)
def levels(c):
    """halving levels of box averages down to one texel; the pyramid leaves the image alone"""
    r = c.rng
    a, colour, wrap, m = setup(c)
    h, w = a.shape[:2]
    c.require((int(m.width), int(m.height)) == (w, h), "size", "pyramid has another size than its image", got=[int(m.width), int(m.height)], want=[w, h])
    ref = pyramid(a)
    c.require(int(m.levels) == len(ref), "levels", "wrong number of levels", got=int(m.levels), want=len(ref))
    for L, b in enumerate(ref):
        H, W = b.shape[:2]
        c.event("level%d" % L)
        for _ in range(12):
            s, t = r.randrange(-W, 2 * W), r.randrange(-H, 2 * H)
            got = m.texel(L, s, t)
            c.close(val(got, colour), wrapped(b, t, s, wrap), "texel", "texel of a level is not the average of its box", tol=1e-9, level=L, s=s, t=t)
        for t in range(min(H, 4)):
            for s in range(min(W, 4)):
                c.close(val(m.texel(L, s, t), colour), b[t, s], "texel", "texel of a level is not the average of its box", tol=1e-9, level=L, s=s, t=t)


@task(quick=300, thorough=6000, min_events=6000)
def points(c):
    """lookups without a width interpolate the texels"""
    r = c.rng
    a, colour, wrap, m = setup(c, trilinear=bool(c.rng.randrange(2)))
    for _ in range(20):
        s, t = coord(r), coord(r)
        want = bilinear(a, s, t, wrap)
        k = r.randrange(4)
        par = [[s, t], [s, t, 0.], [s, t, 0., 0., 0., 0.], (s, t, 0.)][k]
        keep = list(par)
        got = m.look_up(par)
        c.close(val(got, colour), want, "point", "zero-width lookup is not the interpolated texel value", tol=1e-7, s=s, t=t, k=k)
        c.check(list(par) == keep, "argument", "lookup changed its parameters")
        if wrap == ImageWrap.BLACK:
            h, w = a.shape[:2]
            if s < -.5 / w - 1e-9 or s > 1 + .5 / w + 1e-9 or t < -.5 / h - 1e-9 or t > 1 + .5 / h + 1e-9:
                c.event("outside")
                c.check(not val(got, colour).any(), "black", "lookup outside the image under the black mode is not black", s=s, t=t)


@task(quick=300, thorough=6000, min_events=6000)
def widths(c):
    """isotropic lookups: between the interpolated values of the two levels that bracket the width"""
    r = c.rng
    tri = r.random() < .4
    a, colour, wrap, m = setup(c, trilinear=tri)
    ref = pyramid(a)
    n = len(ref)
    for _ in range(20):
        s, t = coord(r), coord(r)
        k = r.random()
        width = 2. ** -r.randrange(0, n + 2) if k < .4 else (r.uniform(1., 9.) if k < .5 else 10 ** r.uniform(-4, 0))
        level = n - 1 + math.log(width, 2)
        if n == 1 and level == 0:
            continue
        if level <= 0:
            want = bilinear(a, s, t, wrap)
        elif level >= n - 1:
            want = ref[-1][0, 0]
            c.event("whole")
        else:
            i = min(int(math.floor(level + 1e-9)), n - 2)
            d = max(0., level - i)
            want = (1 - d) * bilinear(ref[i], s, t, wrap) + d * bilinear(ref[i + 1], s, t, wrap)
            c.event("blend")
        par = [s, t, width]
        if tri and r.random() < .7:
            # isotropic pyramids reduce a footprint to twice its largest derivative
            d = [width / 2. * r.choice([0., r.uniform(-1, 1)]) for _ in range(4)]
            d[r.randrange(4)] = width / 2. * r.choice([1., -1.])
            par = [s, t] + d
            c.event("reduced")
        got = val(m.look_up(par), colour)
        c.close(got, want, "width", "filtered lookup does not blend the levels of its width", tol=1e-6, s=s, t=t, width=width, par=par)
        if wrap != ImageWrap.BLACK:
            lo, hi = a.min(axis=(0, 1)), a.max(axis=(0, 1))
            c.check(bool((got >= lo * (1 - 1e-9) - 1e-12).all() and (got <= hi * (1 + 1e-9) + 1e-12).all()), "range", "lookup leaves the range of the image", s=s, t=t, width=width, got=got)


def ewa(ref, s, t, d, wrap, max_aniso):
    """elliptically weighted average, exact weights; None when no texel is inside"""
    n = len(ref)
    ax0, ax1 = (d[0], d[1]), (d[2], d[3])
    if math.hypot(*ax0) < math.hypot(*ax1):
        ax0, ax1 = ax1, ax0
    ma, mi = math.hypot(*ax0), math.hypot(*ax1)
    if mi == 0:
        return bilinear(ref[0], s, t, wrap), 0.
    if mi * max_aniso < ma:
        f = ma / (mi * max_aniso)
        ax1 = (ax1[0] * f, ax1[1] * f)
        mi *= f
    lod = max(0., n - 1 + math.log(mi, 2))
    i = int(math.floor(lod))
    fr = lod - i

    def one(L):
        if L >= n:
            return ref[-1][0, 0]
        b = ref[L]
        h, w = b.shape[:2]
        x, y = s * w - .5, t * h - .5
        p0, q0, p1, q1 = ax0[0] * w, ax0[1] * h, ax1[0] * w, ax1[1] * h
        A = q0 * q0 + q1 * q1 + 1
        B = -2 * (p0 * q0 + p1 * q1)
        C = p0 * p0 + p1 * p1 + 1
        F = A * C - B * B / 4
        A, B, C = A / F, B / F, C / F
        R = int(math.ceil(math.sqrt(max(F, 1)) * 2 + 2))
        rx = int(math.ceil(2 * math.sqrt((p0 * p0 + p1 * p1 + 1)))) + 2
        ry = int(math.ceil(2 * math.sqrt((q0 * q0 + q1 * q1 + 1)))) + 2
        num, den = 0., 0.
        for j in range(int(math.floor(y)) - ry, int(math.floor(y)) + ry + 2):
            for k in range(int(math.floor(x)) - rx, int(math.floor(x)) + rx + 2):
                r2 = A * (k - x) ** 2 + B * (k - x) * (j - y) + C * (j - y) ** 2
                if r2 < 1.:
                    wt = math.exp(-2. * r2) - math.exp(-2.)
                    num = num + wt * wrapped(b, j, k, wrap)
                    den += wt
        return num / den
    return (1 - fr) * one(i) + fr * one(i + 1), fr


@task(quick=260, thorough=5000, min_events=2500)
def ellipses(c):
    r = c.rng
    ma = r.choice([8., 8., 2., 16., 1.])
    a, colour, wrap, m = setup(c, max_aniso=ma)
    ref = pyramid(a)
    lo, hi = a.min(axis=(0, 1)), a.max(axis=(0, 1))
    rng = float((hi - np.minimum(lo, 0.) * 0).max())
    for _ in range(8):
        s, t = coord(r), coord(r)
        k = r.random()
        if k < .2:
            sc = 10 ** r.uniform(-3, 0)
            d = [sc * r.uniform(.3, 1), 0., 0., sc * r.uniform(.3, 1)]
            if r.random() < .5:
                d = [0., d[0], d[3], 0.]
        elif k < .3:
            d = [r.uniform(-.5, .5), r.uniform(-.5, .5), 0., 0.]
            if r.random() < .5:
                d = d[2:] + d[:2]
        else:
            th, l0, l1 = r.uniform(0, 6.3), 10 ** r.uniform(-3, 0), 10 ** r.uniform(-3, 0)
            d = [l0 * math.cos(th), l0 * math.sin(th), -l1 * math.sin(th), l1 * math.cos(th)]
            if r.random() < .3:
                d[2], d[3] = l1 * math.cos(th + 1), l1 * math.sin(th + 1)
        got = val(m.look_up([s, t] + d), colour)
        c.check(bool(np.isfinite(got).all()), "finite", "elliptical lookup is not finite", s=s, t=t, d=d)
        want, _ = ewa(ref, s, t, d, wrap, ma)
        err = float(np.max(np.abs(got - want)))
        c.check(err <= .03 * rng + 1e-12, "ellipse", "elliptical lookup is not the weighted average over its footprint", s=s, t=t, d=d, got=got, want=want, err=err / rng, ma=ma)
        c.check(bool((got >= (0. if wrap == ImageWrap.BLACK else lo) - 1e-9 * rng).all() and (got <= hi * (1 + 1e-9)).all()), "range", "elliptical lookup leaves the range of the image", s=s, t=t, d=d, got=got)
        if wrap != ImageWrap.BLACK and bool((lo == hi).all()):
            c.event("constant")


@task(quick=250, thorough=5000, min_events=2500)
def constants(c):
    """constant images, also of sizes that are resampled: every level and lookup is the constant"""
    r = c.rng
    colour = r.random() < .5
    k = 3 if colour else 1
    v = [r.uniform(.01, 5.) for _ in range(k)]
    p2 = r.random() < .3
    h, w = size(r, p2), size(r, p2)
    a = np.array([[v for _ in range(w)] for _ in range(h)])
    wrap = r.choice([ImageWrap.REPEAT, ImageWrap.CLAMP])
    tri = bool(r.randrange(2))
    c.note(h=h, w=w, v=v, wrap=wrap.name, colour=colour, trilinear=tri)
    c.sig(h, w, v, wrap.name, tri)
    m = build(r, a, colour, wrap, tri)

    def up2(n):
        x = 1
        while x < n:
            x *= 2
        return x
    c.check((int(m.width), int(m.height)) == (up2(w), up2(h)), "size", "pyramid is not the next power of two in each direction", got=[int(m.width), int(m.height)])
    for L in range(int(m.levels)):
        c.close(val(m.texel(L, r.randrange(20), r.randrange(20)), colour), v, "level", "level of a constant image is not the constant", tol=1e-7, level=L)
    for _ in range(8):
        s, t = coord(r), coord(r)
        q = [[s, t], [s, t, 10 ** r.uniform(-3, .5)], [s, t] + [r.uniform(-.4, .4) for _ in range(4)]][r.randrange(3)]
        c.close(val(m.look_up(q), colour), v, "lookup", "lookup in a constant image is not the constant", tol=1e-7, q=q)


@task(quick=220, thorough=4000, min_events=1800)
def transposed(c):
    """rows and columns play the same role"""
    r = c.rng
    colour = r.random() < .5
    p2 = r.random() < .5
    h, w = size(r, p2), size(r, p2)
    a = picture(r, h, w, colour)
    wrap = r.choice(WRAPS)
    tri = bool(r.randrange(2))
    c.note(h=h, w=w, a=a, wrap=wrap.name, colour=colour, trilinear=tri)
    c.sig(h, w, wrap.name, float(a.sum()))
    m, n = build(r, a, colour, wrap, tri), build(r, a.transpose(1, 0, 2).copy(), colour, wrap, tri)
    top = float(a.max())
    c.require((int(m.width), int(m.height)) == (int(n.height), int(n.width)) and int(m.levels) == int(n.levels), "size", "transposing the image does not transpose the pyramid")
    for L in range(int(m.levels)):
        s, t = r.randrange(16), r.randrange(16)
        c.close(val(m.texel(L, s, t), colour) / top, val(n.texel(L, t, s), colour) / top, "texel", "transposing the image does not transpose a level", tol=1e-7, level=L)
    for _ in range(6):
        s, t = coord(r), coord(r)
        d = [r.uniform(-.3, .3) for _ in range(4)]
        wd = 10 ** r.uniform(-3, 0)
        c.close(val(m.look_up([s, t, wd]), colour) / top, val(n.look_up([t, s, wd]), colour) / top, "lookup", "transposing image and lookup changes the value", tol=1e-7, s=s, t=t, w=wd)
        c.close(val(m.look_up([s, t] + d), colour) / top, val(n.look_up([t, s, d[1], d[0], d[3], d[2]]), colour) / top, "ellipse", "transposing image and elliptical lookup changes the value", tol=1e-6, s=s, t=t, d=d)


@task(quick=200, thorough=4000, min_events=1500)
def resized(c):
    """images resampled to a power of two keep their content: positions, smooth gradients, non-negative"""
    r = c.rng
    h, w = r.randrange(4, 14), r.randrange(4, 14)
    wrap = r.choice([ImageWrap.CLAMP, ImageWrap.REPEAT])
    p, q, o = r.uniform(-1, 1), r.uniform(-1, 1), 3.
    a = np.array([[[o + p * (s + .5) / w + q * (t + .5) / h] for s in range(w)] for t in range(h)])
    c.note(h=h, w=w, p=p, q=q, wrap=wrap.name)
    c.sig(h, w, p, q)
    m = build(r, a, False, wrap)
    W, H = int(m.width), int(m.height)
    c.require(W >= w and H >= h and W < 2 * w and H < 2 * h, "size", "resampled to the wrong size")
    for _ in range(10):
        s, t = r.randrange(W), r.randrange(H)
        x, y = (s + .5) / W, (t + .5) / H
        if not (2.6 / w <= x <= 1 - 2.6 / w and 2.6 / h <= y <= 1 - 2.6 / h):
            continue
        got = float(m.texel(0, s, t))
        # the reconstruction kernel reproduces a gradient to a fraction of one texel's step
        c.close(got, o + p * x + q * y, "gradient", "resampling moves the content of the image", tol=.25 * (abs(p) / w + abs(q) / h) + 1e-9, rel=1., s=s, t=t)
    b = picture(r, h, w, False)
    m = build(r, b, False, wrap)
    lo, hi = float(b.min()), float(b.max())
    for _ in range(10):
        v = float(m.texel(0, r.randrange(W), r.randrange(H)))
        c.check(v >= 0. and lo - .6 * (hi - lo) - 1e-9 <= v <= hi + .6 * (hi - lo) + 1e-9, "range", "resampling invents values", v=v, lo=lo, hi=hi)


class Dir(object):
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="verif-p31-")
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def hit(u, v):
    dg = geo.DifferentialGeometry(geo.Point(0., 0., 0.), geo.Vector(1., 0., 0.), geo.Vector(0., 1., 0.),
                                  geo.Normal(0., 0., 0.), geo.Normal(0., 0., 0.), u, v, None)
    return dg


@task(quick=160, thorough=3000, min_events=700)
def files(c):
    """image textures: (scale * texel)^gamma of the file, whatever was loaded from it before"""
    r = c.rng
    with Dir() as d:
        fn = os.path.join(d, "t%d.png" % r.randrange(10))
        p2 = r.random() < .8
        h, w = size(r, p2), size(r, p2)
        flat = r.random() < .2 or not p2
        pix = np.array([[[r.randrange(256) for _ in range(3)] for _ in range(w)] for _ in range(h)], dtype=np.uint8)
        if flat:
            pix[:] = [r.randrange(1, 256) for _ in range(3)]
        PIL.Image.fromarray(pix).save(fn)
        c.note(h=h, w=w, pix=pix)
        c.sig(h, w, int(pix.sum()))
        su, sv = r.choice([1., 1., 2., r.uniform(.2, 3.)]), r.choice([1., 1., 2., r.uniform(.2, 3.)])
        du, dv = r.choice([0., r.uniform(-1, 1)]), r.choice([0., r.uniform(-1, 1)])
        made = []
        for _ in range(r.randrange(2, 5)):
            scale = r.choice([1., 1. / 255., r.uniform(.001, .1)])
            gamma = r.choice([1., 1., 2.2, .5])
            wrap = r.choice(WRAPS) if not flat else r.choice([ImageWrap.REPEAT, ImageWrap.CLAMP])
            colour = r.random() < .5
            miss = r.random() < .1
            f = os.path.join(d, "none.png") if miss else fn
            tx = ImageTexture(Spectrum if colour else FLOAT, spec.RGBSpectrum if colour else FLOAT,
                              UVMapping2D(su, sv, du, dv), f, bool(r.randrange(2)), 8., wrap, scale, gamma)
            base = pix.astype(float)
            if colour:
                a = (scale * base) ** gamma
            else:
                Y = np.array([[[float(spec.RGBSpectrum(base[t, s]).y())] for s in range(w)] for t in range(h)])
                a = (scale * Y) ** gamma
            made.append((tx, a, wrap, colour, miss, scale, gamma))
        for _ in range(8):
            tx, a, wrap, colour, miss, scale, gamma = r.choice(made)
            u, v = coord(r), coord(r)
            got = val(tx(hit(u, v)), colour)
            if miss:
                c.close(got, [scale ** gamma] * (3 if colour else 1), "missing", "a file that cannot be read does not give the constant default", tol=1e-7)
                continue
            want = bilinear(a, su * u + du, sv * v + dv, wrap) if not flat else a[0, 0]
            c.close(got, want, "value", "texture value is not the converted, interpolated file content", tol=1e-6, u=u, v=v, scale=scale, gamma=gamma, colour=colour)
        # footprints from the hit's derivatives
        tx, a, wrap, colour, miss, scale, gamma = r.choice(made)
        if not miss and not flat:
            dg = hit(r.random(), r.random())
            dg.dudx, dg.dvdx, dg.dudy, dg.dvdy = [r.uniform(-.1, .1) for _ in range(4)]
            got = val(tx(dg), colour)
            q = [su * dg.u + du, sv * dg.v + dv, su * dg.dudx, sv * dg.dvdx, su * dg.dudy, sv * dg.dvdy]
            c.close(got, val(tx.mipmap.look_up(q), colour), "footprint", "texture ignores the footprint of its mapping", tol=1e-9)
    ImageTexture.textures.clear()
