"""Workload generators and plain-Python reference arithmetic."""
import math
import numpy as np
import pytracer.geometry as geo
from pytracer.transform import Transform, AnimatedTransform

PI = math.pi


# ---- numbers and vectors
def num(rng, s=3.):
    k = rng.random()
    if k < .12:
        return rng.choice([0., 1., -1., .5, 2., -2.])
    if k < .2:
        return rng.gauss(0, 1) * 10 ** rng.uniform(-3, 2)
    return rng.gauss(0, s)


def vec3(rng, s=3.):
    return [num(rng, s) for _ in range(3)]


def unit(rng):
    """unit direction; with some probability axis aligned or nearly so"""
    k = rng.random()
    if k < .12:
        v = [0., 0., 0.]
        v[rng.randrange(3)] = rng.choice([-1., 1.])
        return v
    if k < .2:
        v = [0., 0., 0.]
        i = rng.randrange(3)
        a = rng.uniform(0, 2 * PI)
        v[i] = math.cos(a)
        v[(i + 1) % 3] = math.sin(a)
        return v
    if k < .26:
        v = [rng.gauss(0, 1e-3) for _ in range(3)]
        v[rng.randrange(3)] = rng.choice([-1., 1.])
        return nrm(v)
    while True:
        v = [rng.gauss(0, 1) for _ in range(3)]
        if ln(v) > 1e-3:
            return nrm(v)


def gunit(rng):
    while True:
        v = [rng.gauss(0, 1) for _ in range(3)]
        if ln(v) > 1e-3:
            return nrm(v)


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def ln(a):
    return math.sqrt(dot(a, a))


def nrm(a):
    l = ln(a)
    return [x / l for x in a]


def add(a, b):
    return [a[0] + b[0], a[1] + b[1], a[2] + b[2]]


def sub(a, b):
    return [a[0] - b[0], a[1] - b[1], a[2] - b[2]]


def mul(a, s):
    return [a[0] * s, a[1] * s, a[2] * s]


def lst(v):
    return [float(v[0]), float(v[1]), float(v[2])]


def P(v):
    return geo.Point(v[0], v[1], v[2])


def V(v):
    return geo.Vector(v[0], v[1], v[2])


def N(v):
    return geo.Normal(v[0], v[1], v[2])


def onb(n):
    """some right-handed orthonormal basis (s, t, n)"""
    a = [1., 0., 0.] if abs(n[0]) < .8 else [0., 1., 0.]
    s = nrm(cross(a, n))
    return s, cross(n, s), n


# ---- 4x4 matrices (lists of rows)
def ident():
    return [[1. if i == j else 0. for j in range(4)] for i in range(4)]


def mm(a, b):
    return [[sum(a[i][k] * b[k][j] for k in range(4)) for j in range(4)] for i in range(4)]


def m_translate(d):
    m = ident()
    for i in range(3):
        m[i][3] = d[i]
    return m


def m_scale(s):
    m = ident()
    for i in range(3):
        m[i][i] = s[i]
    return m


def m_rotate(deg, axis):
    """Rodrigues, counter-clockwise about axis for positive angles"""
    a = nrm(axis)
    t = math.radians(deg)
    c, s = math.cos(t), math.sin(t)
    K = [[0., -a[2], a[1]], [a[2], 0., -a[0]], [-a[1], a[0], 0.]]
    m = ident()
    for i in range(3):
        for j in range(3):
            k2 = sum(K[i][k] * K[k][j] for k in range(3))
            m[i][j] = (1. if i == j else 0.) + s * K[i][j] + (1. - c) * k2
    return m


def m_pt(m, p):
    r = [sum(m[i][k] * p[k] for k in range(3)) + m[i][3] for i in range(4)]
    return [r[0] / r[3], r[1] / r[3], r[2] / r[3]]


def m_vec(m, v):
    return [sum(m[i][k] * v[k] for k in range(3)) for i in range(3)]


def m_inv3(m):
    a = [r[:3] for r in m[:3]]
    c = [cross(a[1], a[2]), cross(a[2], a[0]), cross(a[0], a[1])]
    det = dot(a[0], c[0])
    return [[c[j][i] / det for j in range(3)] for i in range(3)], det


def m_inv_affine(m):
    inv, _ = m_inv3(m)
    r = ident()
    t = [m[i][3] for i in range(3)]
    for i in range(3):
        for j in range(3):
            r[i][j] = inv[i][j]
        r[i][3] = -dot(inv[i], t)
    return r


def m_nrm(m, n):
    """inverse transpose"""
    inv, _ = m_inv3(m)
    return [sum(inv[k][i] * n[k] for k in range(3)) for i in range(3)]


# ---- transforms: (pytracer Transform, reference matrix, description)
def rigid(rng, tscale=3.):
    d = [rng.gauss(0, tscale) for _ in range(3)]
    ax = unit(rng)
    ang = rng.choice([rng.uniform(-360, 360), 90., 180., 45., 0.])
    T = Transform.translate(V(d)) * Transform.rotate(ang, V(ax))
    M = mm(m_translate(d), m_rotate(ang, ax))
    return T, M, "translate(%s)*rotate(%s,%s)" % (d, ang, ax)


def motion(rng):
    """two rigid keys and their times; keys may be the identity or a pure
    translation, times may be negative or far from 0..1"""
    keys = []
    for _ in range(2):
        k = rng.random()
        if k < .12:
            keys.append((Transform(), ident(), "identity"))
        elif k < .24:
            d = [rng.gauss(0, 2.) for _ in range(3)]
            keys.append((Transform.translate(V(d)), m_translate(d), "translate(%s)" % d))
        else:
            keys.append(rigid(rng))
    t0, t1 = (0., 1.) if rng.random() < .5 else (0., math.exp(rng.uniform(-2, 2))) if rng.random() < .3 else \
        (lambda a: (a, a + math.exp(rng.uniform(-2, 2))))(rng.uniform(-4, 4))
    return keys[0] + (t0,), keys[1] + (t1,)


def scales(rng, mirror=True, uniform=None):
    if uniform is None:
        uniform = rng.random() < .3
    s = math.exp(rng.uniform(-1.2, 1.2))
    s = [s, s, s] if uniform else [math.exp(rng.uniform(-1.2, 1.2)) for _ in range(3)]
    if mirror and rng.random() < .3:
        i = rng.randrange(3)
        s[i] = -s[i]
    return s


def affine(rng, mirror=True):
    """random placement: identity / translate / rigid / with scale / sheared"""
    k = rng.random()
    if k < .1:
        return Transform(), ident(), "identity"
    if k < .2:
        d = vec3(rng)
        return Transform.translate(V(d)), m_translate(d), "translate(%s)" % d
    if k < .5:
        return rigid(rng)
    T, M, desc = rigid(rng)
    s = scales(rng, mirror)
    T = T * Transform.scale(s[0], s[1], s[2])
    M = mm(M, m_scale(s))
    desc += "*scale(%s)" % s
    if k < .75:
        return T, M, desc
    ax, ang = unit(rng), rng.uniform(-180, 180)
    T = T * Transform.rotate(ang, V(ax))
    M = mm(M, m_rotate(ang, ax))
    return T, M, desc + "*rotate(%s,%s)" % (ang, ax)


def snap(x):
    """bytes snapshot of arrays, for no-mutation monitors"""
    return np.array(x, dtype=float).tobytes()


def ray_snap(r):
    return (snap(r.o), snap(r.d), float(r.mint), float(r.maxt), r.depth, float(r.time))


# ---- statistics
def spread(f, u, rel=1e-6):
    """density, per unit area of where it lands, with which the map f of the unit square puts down points near u:
    one over its Jacobian.  However often a map covers its range, no such local contribution can exceed the true density
    of its values.  None where the map is not smooth at this scale.  f returns 3 coordinates or None."""
    p = f(u[0], u[1])
    if p is None:
        return None
    ds = []
    for k in (0, 1):
        h = rel * min(u[k], 1. - u[k])
        q = [f(*[x + s * h * (i == k) for i, x in enumerate(u)]) for s in (1., -1.)]
        if q[0] is None or q[1] is None or h <= 0:
            return None
        a, b = mul(sub(q[0], p), 1. / h), mul(sub(p, q[1]), 1. / h)
        if ln(sub(a, b)) > 1e-3 * (ln(a) + ln(b)):
            return None
        ds.append(mul(add(a, b), .5))
    J = ln(cross(*ds))
    if J <= 1e-3 * ln(ds[0]) * ln(ds[1]):
        return None
    return 1. / J


def chi2_bad(obs, exp, z=7.):
    """Pearson statistic too large?  Cells with tiny expectation are pooled.
    Returns (bad, stat, dof)."""
    o2, e2 = [], []
    po = pe = 0.
    for o, e in zip(obs, exp):
        if e < 8.:
            po += o
            pe += e
        else:
            o2.append(o)
            e2.append(e)
    if pe > 0 or po > 0:
        if pe < 8. and e2:
            # merge the pool with the smallest kept cell
            i = min(range(len(e2)), key=lambda k: e2[k])
            o2[i] += po
            e2[i] += pe
        else:
            o2.append(po)
            e2.append(max(pe, 1e-9))
    stat = sum((o - e) ** 2 / e for o, e in zip(o2, e2))
    k = max(1, len(e2) - 1)
    # Wilson-Hilferty: cube root is nearly normal
    zz = ((stat / k) ** (1. / 3.) - (1. - 2. / (9. * k))) / math.sqrt(2. / (9. * k))
    return zz > z, stat, k


def mean_bad(samples, want, z=6.5, bias=0.):
    n = len(samples)
    m = sum(samples) / n
    v = sum((x - m) ** 2 for x in samples) / max(1, n - 1)
    se = math.sqrt(v / n)
    return abs(m - want) > z * se + bias + 1e-9 * (1 + abs(want)), m, se
