"""P20 reconstruction filters"""
import math
from core import tasklist
import gen as g
import numpy as np
from pytracer.filter import BoxFilter, TriangleFilter, GaussianFilter, MitchellFilter, LanczosSincFilter

TASKS, task = tasklist()
RULE = "every filter with widths 0.1..10 (equal and unequal), Gaussian falloff 0.01..10, Mitchell B,C in [0,1], Lanczos tau 0.5..6, positions inside, on and beyond the support, scalars and arrays; distinct by filter, parameters and position"


def sinc(x):
    return 1. if abs(x) < 1e-9 else math.sin(math.pi * x) / (math.pi * x)


def mitchell(x, B, C):
    x = abs(2 * x)
    if x > 1:
        return ((-B - 6 * C) * x ** 3 + (6 * B + 30 * C) * x * x + (-12 * B - 48 * C) * x + 8 * B + 24 * C) / 6.
    return ((12 - 9 * B - 6 * C) * x ** 3 + (-18 + 12 * B + 6 * C) * x * x + 6 - 2 * B) / 6.


def make(r, kind=None):
    k = kind or r.choice(["box", "tri", "gauss", "mitchell", "lanczos"])
    xw = r.choice([.5, 1., 2., r.uniform(.1, 4), 10 ** r.uniform(-1, 1)])
    yw = xw if r.random() < .4 else r.choice([.5, 1., 2., r.uniform(.1, 4)])
    p = {"kind": k, "xw": xw, "yw": yw}
    if k == "box":
        return BoxFilter(xw, yw), lambda x, w: 1., p
    if k == "tri":
        return TriangleFilter(xw, yw), lambda x, w: max(0., w - abs(x)), p
    if k == "gauss":
        a = 10 ** r.uniform(-2, 1)
        p['alpha'] = a
        return GaussianFilter(xw, yw, a), lambda x, w: max(0., math.exp(-a * x * x) - math.exp(-a * w * w)), p
    if k == "mitchell":
        B, C = r.choice([(1. / 3, 1. / 3), (1., 0.), (0., .5), (r.random(), r.random())])
        p['B'], p['C'] = B, C
        return MitchellFilter(B, C, xw, yw), lambda x, w: mitchell(x / w, B, C), p
    t = r.choice([3., 1., r.uniform(.5, 6)])
    p['tau'] = t
    return LanczosSincFilter(xw, yw, t), lambda x, w: 0. if abs(x / w) > 1 else sinc(x / w * t) * sinc(x / w), p


@task(quick=3000, thorough=60000, min_events=20000)
def values(c):
    r = c.rng
    f, one, p = make(r)
    xw, yw = p['xw'], p['yw']
    c.note(**p)
    c.close([f.xw, f.yw, f.xwInv, f.ywInv], [xw, yw, 1 / xw, 1 / yw], "widths", "widths or reciprocals not kept", tol=1e-12)
    fx = lambda x, y: one(x, xw) * one(y, yw)
    top = float(f(0., 0.))
    for _ in range(5):
        x = r.choice([0., xw, -xw, r.uniform(-xw, xw), r.uniform(-xw, xw), r.uniform(-xw, xw) * .5])
        y = r.choice([0., yw, -yw, r.uniform(-yw, yw), r.uniform(-yw, yw), r.uniform(-yw, yw) * .5])
        if p['kind'] == "lanczos" and (1 - 1e-9 < abs(x / xw) or 1 - 1e-9 < abs(y / yw)):
            continue       # the step at the very edge is judged below
        c.sig(p, x, y)
        v = float(f(x, y))
        w = fx(x, y)
        c.check(abs(v - w) <= 1e-9 * (abs(fx(0., 0.)) + 1), "formula", "value does not follow the published formula", x=x, y=y, got=v, want=w)
        c.check(all(abs(float(f(a, b)) - v) < 1e-12 * (1 + abs(v)) for a, b in ((-x, y), (x, -y), (-x, -y))), "even", "not symmetric", x=x, y=y)
        if p['kind'] in ("box", "tri", "gauss"):
            c.check(v >= 0, "non-negative", "negative weight", x=x, y=y, v=v)
        if p['kind'] != "mitchell" or abs(p['B'] + 2 * p['C'] - 1) < 1e-9:
            c.check(v <= top * (1 + 1e-9) + 1e-15, "peak", "larger than at the centre", x=x, y=y, v=v, centre=top)
        c.close(v * top, float(f(x, 0.)) * float(f(0., y)), "separable", "not a product of its x and y profiles", tol=1e-9)
    # support boundary
    if p['kind'] in ("tri", "gauss", "mitchell"):
        for x, y in ((xw, 0.), (-xw, r.uniform(-yw, yw)), (0., yw), (r.uniform(-xw, xw), -yw)):
            c.check(abs(float(f(x, y))) <= 1e-9 * (1 + top), "vanish", "does not vanish at the edge of its support", x=x, y=y, v=float(f(x, y)))
    if p['kind'] == "lanczos":
        for x, y in ((xw * (1 - 1e-6), 0.), (0., -yw * (1 - 1e-6)), (xw * 1.01, 0.), (0., yw * 1.5)):
            c.check(abs(float(f(x, y))) <= 1e-4, "vanish", "does not vanish at the edge of its support", x=x, y=y, v=float(f(x, y)))
    if p['kind'] in ("tri", "gauss"):
        c.check(float(f(xw * r.uniform(1, 3), 0.)) == 0. and float(f(0., -yw * r.uniform(1, 3))) == 0., "outside", "weight beyond the support")


@task(quick=600, thorough=10000, min_events=800)
def arrays(c):
    """array positions give the scalar values, element by element, and leave the arrays alone"""
    r = c.rng
    f, one, p = make(r, r.choice(["tri", "gauss", "mitchell", "lanczos"]))
    n = r.randrange(1, 7)
    # inside, at the centre, on the edge and beyond the support
    at = lambda w: w * r.choice([r.uniform(-1, 1), r.uniform(-1, 1), r.uniform(-2, 2), 0., 1., -1.])
    x = [at(p['xw']) for _ in range(n)]
    y = [at(p['yw']) for _ in range(n)]
    ax, ay = np.array(x), np.array(y)
    c.note(x=x, y=y, **p)
    c.sig(p, x)
    got = f(ax, ay)
    c.close(got, [float(f(a, b)) for a, b in zip(x, y)], "elementwise", "array evaluation differs from scalar", tol=1e-12)
    c.check(ax.tolist() == x and ay.tolist() == y, "argument", "position array modified")
