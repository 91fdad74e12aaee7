"""P19 film accumulation"""
import os
import sys
import math
import time
import shutil
import tempfile
import threading
from core import tasklist
import gen as g
import numpy as np
import pytracer
from pytracer import Spectrum
from pytracer.film import ImageFilm
from pytracer.sampler import CameraSample
import pytracer.utility.imageio as iio
from checks import p20

TASKS, task = tasklist()
RULE = ("resolutions 1..14 x 1..14 (square or not), random crop windows, every filter with widths 0.25..4, samples at random positions, pixel centres, borders and far outside, splats, "
        "random arrival orders and concurrent threads with injected delays; distinct by film configuration and sample stream")
ASSUMPTIONS = ["filter weights are read from the film's documented 16x16 table of the (even) filter: the cell centre's value",
               "samples exactly on a table-cell edge, where rounding decides, are not generated unless the width is a power of two"]
T = pytracer.FILTER_TABLE_SIZE


class Capture(object):
    """records the pixel array handed to the image writer"""
    def __enter__(self):
        self.rgb = None
        self.args = None
        self.old = iio.write_image

        def spy(fn, rgb, alpha, *a):
            self.rgb = np.array(rgb, dtype=float)
            self.args = (fn, alpha) + a
            return np.zeros(rgb.shape, dtype='uint8')
        iio.write_image = spy
        return self

    def __exit__(self, *a):
        iio.write_image = self.old


def image(c, film, scale=None):
    with Capture() as cap:
        film.write_image(scale) if scale is not None else film.write_image()
    c.require(cap.rgb is not None, "written", "nothing was handed to the image writer")
    return cap


def filt(r):
    f, one, p = p20.make(r)
    xw, yw = r.choice([.25, .5, 1., 2., r.uniform(.25, 4)]), r.choice([.25, .5, 1., 2., r.uniform(.25, 4)])
    import pytracer.filter as F
    k = p['kind']
    f = {"box": lambda: F.BoxFilter(xw, yw), "tri": lambda: F.TriangleFilter(xw, yw), "gauss": lambda: F.GaussianFilter(xw, yw, p['alpha']),
         "mitchell": lambda: F.MitchellFilter(p['B'], p['C'], xw, yw), "lanczos": lambda: F.LanczosSincFilter(xw, yw, p['tau'])}[k]()
    p['xw'], p['yw'] = xw, yw
    return f, p


def config(r):
    xr, yr = r.randrange(1, 15), r.randrange(1, 15)
    crop = [0., 1., 0., 1.]
    if r.random() < .5:
        for i in (0, 2):
            a, b = sorted([r.random(), r.random()])
            if r.random() < .3:
                a = 0.
            if r.random() < .3:
                b = 1.
            crop[i], crop[i + 1] = a, b
    return xr, yr, crop


def extent(xr, yr, crop):
    x0 = int(math.ceil(xr * crop[0]))
    y0 = int(math.ceil(yr * crop[2]))
    return x0, x0 + max(1, int(math.ceil(xr * crop[1])) - x0), y0, y0 + max(1, int(math.ceil(yr * crop[3])) - y0)


def coord(r, lo, hi, w):
    k = r.random()
    if k < .2:
        return r.randrange(lo, hi) + .5
    if k < .3:
        return float(r.randrange(lo, hi + 1))
    if k < .45:
        return r.choice([lo - w - r.uniform(-1, 3), hi + w + r.uniform(-1, 3)])
    return r.uniform(lo - w - 1, hi + w + 1)


def pow2(w):
    m, e = math.frexp(w)
    return m == .5


def spread(x, w, lo, hi):
    """[(pixel, table cell)] or None when rounding decides"""
    d = x - .5
    out = []
    for p in range(max(lo, int(math.floor(d - w)) - 1), min(hi, int(math.ceil(d + w)) + 2)):
        q = abs(p - d)
        k = q * T / w
        if abs(q - w) < 1e-9 * (1 + abs(d)) and not (pow2(w) and float(x * 64).is_integer()):
            return None
        if q > w:
            continue
        if abs(k - round(k)) < 1e-9 and not (pow2(w) and float(x * 64).is_integer()):
            return None
        out.append((p, min(T - 1, int(math.floor(k)))))
    return out


def rgb_of(r, const=None):
    k = r.random()
    if k < .1:
        return [0., 0., 0.]
    if k < .2:
        return [0., r.random(), 0.]
    return [r.random() * 10 ** r.uniform(-2, 2) for _ in range(3)]


class Model(object):
    def __init__(self, f, p, ext):
        self.ext = ext
        self.p = p
        self.tab = [[float(f((i + .5) * p['xw'] / T, (j + .5) * p['yw'] / T)) for i in range(T)] for j in range(T)]
        self.acc = {}
        self.spl = {}

    def add(self, x, y, L):
        a = spread(x, self.p['xw'], self.ext[0], self.ext[1])
        b = spread(y, self.p['yw'], self.ext[2], self.ext[3])
        if a is None or b is None:
            return False
        for px, i in a:
            for py, j in b:
                w = self.tab[j][i]
                s = self.acc.setdefault((px, py), [0., 0., 0., 0., 0.])
                for k in range(3):
                    s[k] += w * L[k]
                s[3] += w
                s[4] += abs(w)
        return True

    def splat(self, x, y, L):
        k = (int(math.floor(x)), int(math.floor(y)))
        s = self.spl.setdefault(k, [0., 0., 0.])
        for i in range(3):
            s[i] += L[i]

    def pixel(self, x, y, scale):
        """(rgb, conditioning)"""
        s = self.acc.get((x, y))
        v = [0., 0., 0.]
        cond = 1.
        if s is not None and s[3] != 0.:
            v = [max(0., s[k] / s[3]) for k in range(3)]
            cond = s[4] / abs(s[3])
        q = self.spl.get((x, y), [0., 0., 0.])
        return [v[k] + scale * q[k] for k in range(3)], cond


def build(r):
    f, p = filt(r)
    xr, yr, crop = config(r)
    ext = extent(xr, yr, crop)
    desc = dict(res=[xr, yr], crop=crop, filter=p)
    return f, p, xr, yr, crop, ext, desc


def judge(c, img, m, ext, scale, mech, top):
    h, w = ext[3] - ext[2], ext[1] - ext[0]
    if not c.check(img.shape == (h, w, 3), mech + "-shape", "image has the wrong shape", got=img.shape, want=[h, w, 3]):
        return
    for y in range(h):
        for x in range(w):
            want, cond = m.pixel(x + ext[0], y + ext[2], scale)
            if cond > 1e5:
                continue
            got = img[y, x].tolist()
            # xyz<->rgb matrices are inverse to about 2e-6 only
            if not c.check(all(abs(a - b) <= 1e-5 * (top * cond + 1e-12) for a, b in zip(got, want)), mech,
                           "pixel is not the weighted average of its samples plus splats", pixel=[x, y], got=got, want=want):
                return


@task(quick=300, thorough=12000, min_events=3000)
def accumulate(c):
    r = c.rng
    f, p, xr, yr, crop, ext, desc = build(r)
    keep = list(crop)
    film = ImageFilm(xr, yr, f, crop, "unused.png")
    c.note(**desc)
    c.check(crop == keep, "crop-arg", "crop list modified")
    c.close([float(x) for x in film.get_pixel_extent()], [float(x) for x in ext], "extent", "pixel extent is not the cropped resolution", tol=0)
    m = Model(f, p, ext)
    stream = []
    top = 0.
    for _ in range(r.randrange(1, 40)):
        x, y = coord(r, ext[0], ext[1], p['xw']), coord(r, ext[2], ext[3], p['yw'])
        L = rgb_of(r)
        if m.add(x, y, L):
            stream.append((x, y, L))
            top = max([top] + L)
    c.sig(desc, stream)
    spl = []
    for _ in range(r.choice([0, 0, 3])):
        x, y = coord(r, ext[0], ext[1], 1), coord(r, ext[2], ext[3], 1)
        L = rgb_of(r)
        spl.append((x, y, L))
        m.splat(x, y, L)
    scale = r.choice([None, 1., r.uniform(0, 2)])
    top += sum(max(L) for _, _, L in spl) * (scale if scale is not None else 1.)

    def feed(film, items, spl):
        for x, y, L in items:
            s, sp = CameraSample(x, y, .1, .2, .3), Spectrum.from_rgb(L)
            before = np.array(sp).tolist()
            film.add_sample(s, sp)
            if (s.imageX, s.imageY, s.lens_u, s.lens_v, s.time) != (x, y, .1, .2, .3) or np.array(sp).tolist() != before:
                c.check(False, "argument", "sample or radiance modified")
        for x, y, L in spl:
            film.splat(CameraSample(x, y), Spectrum.from_rgb(L))
    feed(film, stream, spl)
    cap = image(c, film, scale)
    judge(c, cap.rgb, m, ext, 1. if scale is None else scale, "average", top)
    c.check(cap.args[0] == "unused.png" and [int(v) for v in cap.args[2:8]] == [ext[1] - ext[0], ext[3] - ext[2], xr, yr, ext[0], ext[2]],
            "placement", "image handed on with wrong sizes or offsets", got=cap.args)
    again = image(c, film, scale).rgb
    c.check(bool((again == cap.rgb).all()), "repeat-write", "writing changed the film")
    # another arrival order
    order = list(stream)
    r.shuffle(order)
    sp2 = list(spl)
    r.shuffle(sp2)
    film2 = ImageFilm(xr, yr, f, crop, "unused.png")
    feed(film2, order, sp2)
    b = image(c, film2, scale).rgb
    ok = True
    for y in range(b.shape[0]):
        for x in range(b.shape[1]):
            cond = m.pixel(x + ext[0], y + ext[2], 1.)[1]
            if cond < 1e5 and abs(b[y, x] - cap.rgb[y, x]).max() > 1e-9 * (top * cond + 1e-12):
                ok = False
    c.check(ok, "order", "image depends on the arrival order")


@task(quick=120, thorough=5000, min_events=200)
def constant(c):
    """constant radiance is reconstructed exactly wherever samples reach"""
    r = c.rng
    f, p, xr, yr, crop, ext, desc = build(r)
    if p['kind'] in ("mitchell", "lanczos"):
        return
    film = ImageFilm(xr, yr, f, crop, "unused.png")
    L = [r.uniform(.01, 5) for _ in range(3)]
    n = r.choice([1, 2])
    se = [int(v) for v in film.get_sample_extent()]
    c.note(L=L, spp=n, **desc)
    c.sig(desc, L, n)
    for y in range(se[2], se[3]):
        for x in range(se[0], se[1]):
            for _ in range(n):
                film.add_sample(CameraSample(x + r.random(), y + r.random()), Spectrum.from_rgb(L))
    img = image(c, film).rgb
    for y in range(img.shape[0]):
        for x in range(img.shape[1]):
            v = img[y, x].tolist()
            if v == [0., 0., 0.]:
                continue        # no sample with weight reached it
            c.event("pixel")
            if not c.check(all(abs(a - b) <= 1e-5 * max(L) for a, b in zip(v, L)), "constant", "constant radiance not reproduced", pixel=[x, y], got=v, want=L):
                return
    if p['xw'] >= 1 and p['yw'] >= 1:
        c.check(bool((img > 0).all()), "covered", "pixels left empty although the declared extent was sampled")


@task(quick=250, thorough=8000, min_events=1000)
def extents(c):
    """the declared sample extent covers every position able to affect the image; outside positions do not"""
    r = c.rng
    f, p, xr, yr, crop, ext, desc = build(r)
    film = ImageFilm(xr, yr, f, crop, "unused.png")
    se = [int(v) for v in film.get_sample_extent()]
    c.note(extent=se, **desc)
    c.sig(desc)
    c.check(se[0] <= ext[0] and se[2] <= ext[2] and se[1] >= ext[1] and se[3] >= ext[3], "covers-pixels", "sample extent smaller than the image")
    c.check(se[0] >= ext[0] - p['xw'] - 2 and se[1] <= ext[1] + p['xw'] + 2 and se[2] >= ext[2] - p['yw'] - 2 and se[3] <= ext[3] + p['yw'] + 2,
            "tight", "sample extent far beyond the filter support")
    for _ in range(8):
        x, y = r.uniform(se[0], se[1]), r.uniform(se[2], se[3])
        k = r.randrange(4)
        d = r.choice([1e-6, r.uniform(0, 1), r.uniform(0, 5)])
        if k == 0:
            x = se[0] - d
        elif k == 1:
            x = se[1] + d
        elif k == 2:
            y = se[2] - d
        else:
            y = se[3] + d
        film.add_sample(CameraSample(x, y), Spectrum.from_rgb([1., 2., 3.]))
        img = image(c, film).rgb
        c.require(not img.any(), "outside", "a sample outside the declared extent reached a pixel", at=[x, y], extent=se)
        if not r.random() < .2:
            continue
        film.splat(CameraSample(x, y), Spectrum.from_rgb([1., 2., 3.]))
        img = image(c, film).rgb
        inside = ext[0] <= math.floor(x) < ext[1] and ext[2] <= math.floor(y) < ext[3]
        c.check(bool(img.any()) == inside, "splat-outside", "splat deposited outside its pixel", at=[x, y])
        if inside:
            break


def slow(film, delay):
    """delays between the reading and the writing of a pixel's sums"""
    base = type(film.pixels[0][0])

    class Slow(base):
        pass

    def prop(name):
        hid = "_slow_" + name

        def get(self):
            v = self.__dict__[hid]
            v = v.copy() if hasattr(v, 'copy') else v
            time.sleep(delay)
            return v

        def put(self, v):
            self.__dict__[hid] = v
        return property(get, put)
    names = ("Lxyz", "splatXYZ", "weight_sum")
    for n in names:
        setattr(Slow, n, prop(n))
    for col in film.pixels:
        for px in col:
            for n in names:
                px.__dict__["_slow_" + n] = px.__dict__.pop(n)
            px.__class__ = Slow
    return True


@task(quick=40, thorough=600, min_events=60)
def threads(c):
    """concurrent arrival: no contribution lost or doubled"""
    r = c.rng
    f, p, xr, yr, crop, ext, desc = build(r)
    xr, yr = min(xr, 4), min(yr, 4)
    if p['xw'] <= .5 and p['yw'] <= .5:
        narrow = True
    else:
        narrow = False
    ext = extent(xr, yr, crop)
    film = ImageFilm(xr, yr, f, crop, "unused.png")
    m = Model(f, p, ext)
    nt = r.choice([2, 3, 4])
    streams = [[] for _ in range(nt)]
    top = 0.
    for _ in range(nt * 8):
        x, y = r.uniform(ext[0] - .5, ext[1] + .5), r.uniform(ext[2] - .5, ext[3] + .5)
        L = rgb_of(r)
        if not m.add(x, y, L):
            continue
        top = max([top] + L)
        # narrow filters touch one pixel: its samples all come from the thread that owns the tile
        k = int(math.floor(x)) % nt if narrow else r.randrange(nt)
        streams[k].append((x, y, L))
    spl = [[] for _ in range(nt)]
    for k in range(nt):
        for _ in range(5):
            x, y = r.uniform(ext[0], ext[1]), r.uniform(ext[2], ext[3])
            L = rgb_of(r)
            spl[k].append((x, y, L))
            m.splat(x, y, L)
            top += max(L)
    c.note(threads=nt, **desc)
    c.sig(desc, c.index)
    try:
        slow(film, r.choice([0., 1e-5, 1e-4]))
        c.event("delays-injected")
    except Exception:
        c.event("delays-not-possible")
    errs = []
    gate = threading.Barrier(nt)
    live = [0, 0]

    def run(k):
        try:
            gate.wait()
            for i in range(max(len(streams[k]), len(spl[k]))):
                if i < len(streams[k]):
                    x, y, L = streams[k][i]
                    film.add_sample(CameraSample(x, y), Spectrum.from_rgb(L))
                if i < len(spl[k]):
                    x, y, L = spl[k][i]
                    film.splat(CameraSample(x, y), Spectrum.from_rgb(L))
        except Exception as e:
            errs.append(repr(e))
    ts = [threading.Thread(target=run, args=(k,)) for k in range(nt)]
    [t.start() for t in ts]
    [t.join(60) for t in ts]
    c.require(not any(t.is_alive() for t in ts), "deadlock", "a thread never finished")
    c.check(not errs, "errors", "exception in a thread", errs=errs)
    judge(c, image(c, film).rgb, m, ext, 1., "threads", top)
