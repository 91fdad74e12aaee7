"""P38 image files"""
import os
import math
import shutil
import tempfile
from core import tasklist
import gen as g
import numpy as np
import PIL.Image
import pytracer.utility.imageio as iio

TASKS, task = tasklist()
RULE = "images 1..33 x 1..33 (square or not, power of two or not), RGB, RGBA, greyscale and palette files, float arrays of any scale, black images, crop updates at every offset; distinct by size, mode and content"


class Dir(object):
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="verif-p38-")
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def size(r, p2=False):
    if p2:
        return 2 ** r.randrange(0, 6)
    return r.choice([1, 2, 3, 4, 8, r.randrange(1, 34)])


def up2(n):
    k = 1
    while k < n:
        k *= 2
    return k


def picture(r, h, w):
    k = r.random()
    if k < .1:
        return np.zeros((h, w, 3))
    a = np.array([[[r.random() for _ in range(3)] for _ in range(w)] for _ in range(h)])
    if k < .3:
        a[:, :, r.randrange(3)] = 0.
    if k < .4:
        a[:] = [r.random() + .01, r.random(), r.random()]
    return a * 10 ** r.uniform(-3, 3)


def quant(a):
    """full intensity for the brightest value, 8 bit"""
    m = a.max()
    return a * (255. / m) if m > 0 else a


@task(quick=500, thorough=10000, min_events=1500)
def write_read(c):
    r = c.rng
    h, w = size(r), size(r)
    a = picture(r, h, w)
    keep = a.copy()
    c.note(h=h, w=w, scale=float(a.max()))
    c.sig(h, w, float(a.sum()))
    with Dir() as d:
        fn = os.path.join(d, "x.png")
        ret = iio.write_image(fn, a, None, w, h, w, h, 0, 0)
        c.check(bool((a == keep).all()), "argument", "the caller's array was modified")
        want = quant(keep)
        with PIL.Image.open(fn) as pic:
            f = np.array(pic.convert("RGB")).astype(float)
        if c.check(f.shape == (h, w, 3), "file-size", "file has the wrong size", got=f.shape, want=[h, w]):
            c.check(bool((abs(f - want) <= 1.0 + 1e-6).all()), "file", "file differs from the picture by more than one step", h=h, w=w)
        if ret is not None:
            c.check(np.shape(ret) == (h, w, 3) and bool((np.array(ret, dtype=float) == f).all()), "returned", "returned image is not the stored one")
        back = np.array(iio.read_image(fn))
        H, W = up2(h), up2(w)
        if c.check(back.shape[:2] == (H, W) and back.shape[2] == 3, "read-size", "read image has the wrong size", got=back.shape, want=[H, W]):
            if (H, W) == (h, w):
                c.check(bool((back.astype(float) == f).all()), "round-trip", "reading back gives another picture")
                c.event("exact")
            else:
                lo, hi = f.min(axis=(0, 1)) - 1, f.max(axis=(0, 1)) + 1
                c.check(bool(((back >= lo) & (back <= hi)).all()), "resample-range", "resampling invented values")
                # orientation: coarse means of the halves agree with the original
                c.event("resampled")
        c.check(sorted(os.listdir(d)) == ["x.png"], "files", "stray files left behind", got=os.listdir(d))


@task(quick=300, thorough=6000, min_events=500)
def read_modes(c):
    r = c.rng
    p2 = r.random() < .6
    h, w = size(r, p2), size(r, p2)
    mode = r.choice(["RGB", "RGBA", "L", "P"])
    a = np.array([[[r.randrange(256) for _ in range(4)] for _ in range(w)] for _ in range(h)], dtype='uint8')
    c.note(h=h, w=w, mode=mode)
    c.sig(h, w, mode, int(a.sum()))
    with Dir() as d:
        fn = os.path.join(d, "y.png")
        if mode == "L":
            pic = PIL.Image.fromarray(a[:, :, 0], mode="L")
        elif mode == "RGBA":
            pic = PIL.Image.fromarray(a, mode="RGBA")
        else:
            pic = PIL.Image.fromarray(np.ascontiguousarray(a[:, :, :3]), mode="RGB")
        if mode == "P":
            pic = pic.quantize(16)
        pic.save(fn)
        raw = open(fn, "rb").read()
        got = np.array(iio.read_image(fn))
        c.check(open(fn, "rb").read() == raw, "source", "reading changed the file")
        if mode == "L":
            want = np.dstack([a[:, :, 0]] * 3)
        elif mode == "P":
            want = np.array(pic.convert("RGB"))
        else:
            want = a[:, :, :3]
        H, W = up2(h), up2(w)
        if not c.check(got.shape == (H, W, 3), "size", "read image has the wrong size", got=got.shape, want=[H, W, 3]):
            return
        if (H, W) == (h, w):
            c.check(bool((got == want).all()), "pixels", "pixels differ from the file")
        else:
            # every texel comes from near its proportional position
            ok = True
            for y in range(H):
                for x in range(W):
                    yy, xx = (y + .5) * h / H - .5, (x + .5) * w / W - .5
                    ys = range(max(0, int(math.floor(yy)) - 2), min(h, int(math.ceil(yy)) + 3))
                    xs = range(max(0, int(math.floor(xx)) - 2), min(w, int(math.ceil(xx)) + 3))
                    blk = want[ys[0]:ys[-1] + 1, xs[0]:xs[-1] + 1]
                    lo, hi = blk.min(axis=(0, 1)).astype(int), blk.max(axis=(0, 1)).astype(int)
                    if not ((got[y, x] >= lo - 1) & (got[y, x] <= hi + 1)).all():
                        ok = False
            c.check(ok, "resample", "resampled picture does not follow the original rows and columns")


@task(quick=500, thorough=10000, min_events=900)
def crop_update(c):
    r = c.rng
    H, W = r.randrange(1, 20), r.randrange(1, 20)
    h, w = r.randrange(1, H + 1), r.randrange(1, W + 1)
    if (h, w) == (H, W):
        if H > 1:
            h -= 1
        elif W > 1:
            w -= 1
        else:
            H = 2
    y0, x0 = r.randrange(0, H - h + 1), r.randrange(0, W - w + 1)
    old = np.array([[[r.randrange(256) for _ in range(3)] for _ in range(W)] for _ in range(H)], dtype='uint8')
    a = picture(r, h, w)
    keep = a.copy()
    c.note(full=[H, W], crop=[h, w], at=[y0, x0])
    c.sig(H, W, h, w, y0, x0)
    with Dir() as d:
        fn = os.path.join(d, "z.png")
        if r.random() < .1:
            try:
                iio.write_image(fn, a, None, w, h, W, H, x0, y0)
                c.check(False, "missing", "updating a missing image did not fail")
            except RuntimeError:
                c.check(not os.path.exists(fn), "missing", "a file appeared")
        PIL.Image.fromarray(old, mode="RGB").save(fn, "PNG")
        ret = iio.write_image(fn, a, None, w, h, W, H, x0, y0)
        c.check(bool((a == keep).all()), "argument", "the caller's array was modified")
        with PIL.Image.open(fn) as pic:
            f = np.array(pic.convert("RGB"))
        if not c.check(f.shape == (H, W, 3), "size", "updated image changed size", got=f.shape):
            return
        inside = f[y0:y0 + h, x0:x0 + w].astype(float)
        c.check(bool((abs(inside - quant(keep)) <= 1.0 + 1e-6).all()), "inside", "cropped pixels not written")
        mask = np.ones((H, W), dtype=bool)
        mask[y0:y0 + h, x0:x0 + w] = False
        c.check(bool((f[mask] == old[mask]).all()), "outside", "pixels outside the crop changed")
        if ret is not None:
            c.check(bool((np.array(ret) == f).all()), "returned", "returned image is not the stored one")


@task(quick=20, thorough=100, min_events=30)
def rejects(c):
    r = c.rng
    c.sig(c.index)
    a = np.zeros((2, 2, 3))
    for fn in (lambda: iio.read_image(None), lambda: iio.write_image(None, a, None, 2, 2, 2, 2, 0, 0), lambda: iio.write_image("x.png", None, None, 2, 2, 2, 2, 0, 0)):
        try:
            fn()
            c.check(False, "none", "missing argument accepted")
        except IOError:
            c.check(True, "none")
