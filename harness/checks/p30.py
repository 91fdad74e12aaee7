"""P30 texture mappings and procedural textures"""
import math
from core import tasklist
import gen as g
import numpy as np
import pytracer
from pytracer import FLOAT, Spectrum
import pytracer.geometry as geo
import pytracer.transform as trans
import pytracer.texture as tex
import pytracer.texture.texture as tt
import pytracer.texture.texturemap as tm
from pytracer.texture.utility import noise, FBm, turbulence, smooth_step, Lanczos

TASKS, task = tasklist()
RULE = "random hits with footprints (including none), affine world-to-texture transforms, every mapping and procedural texture over colour and number textures; noise at lattice points, across cell faces and inside cells, also at negative and large coordinates; distinct by parameters and hit"


def hit(r, scale=3., foot=None):
    p, du, dv = g.vec3(r, scale), g.vec3(r), g.vec3(r)
    while g.ln(g.cross(du, dv)) < 1e-3:
        du, dv = g.vec3(r), g.vec3(r)
    dg = geo.DifferentialGeometry(g.P(p), g.V(du), g.V(dv), geo.Normal(0., 0., 0.), geo.Normal(0., 0., 0.),
                                  r.uniform(-3, 3), r.uniform(-3, 3), None)
    f = foot if foot is not None else r.choice([0., 1e-3, .05, .3, 2.])
    dg.dpdx, dg.dpdy = g.V([r.gauss(0, 1) * f for _ in range(3)]), g.V([r.gauss(0, 1) * f for _ in range(3)])
    dg.dudx, dg.dvdx, dg.dudy, dg.dvdy = [r.gauss(0, 1) * f for _ in range(4)]
    return dg


FIELDS = ["p", "dpdu", "dpdv", "dndu", "dndv", "nn", "u", "v", "dpdx", "dpdy", "dudx", "dudy", "dvdx", "dvdy"]


def state(dg):
    return [np.array(getattr(dg, f), dtype=float).ravel().tolist() for f in FIELDS]


class Watch(object):
    """the hit before and after"""
    def __init__(self, c, dg):
        self.c, self.dg, self.s = c, dg, state(dg)

    def done(self, mech="hit"):
        self.c.check(state(self.dg) == self.s, mech, "evaluation modified the hit")


def w2t(r):
    T, m, _ = g.affine(r)
    return T, m


def f3(v):
    return np.array([float(v[0]), float(v[1]), float(v[2])])


# ------------------------------------------------------------ mappings

@task(quick=800, thorough=16000, min_events=4000)
def flat_maps(c):
    """uv, planar and identity mappings: formula and exact derivatives"""
    r = c.rng
    dg = hit(r)
    w = Watch(c, dg)
    su, sv, du, dv = [r.choice([1., 0., r.uniform(-4, 4)]) for _ in range(4)]
    c.note(p=f3(dg.p), uv=[dg.u, dg.v], su=su, sv=sv, du=du, dv=dv)
    c.sig(dg.u, dg.v, su, sv)
    got = tm.UVMapping2D(su, sv, du, dv)(dg)
    c.close(np.array(got, dtype=float), [su * dg.u + du, sv * dg.v + dv, su * dg.dudx, sv * dg.dvdx, su * dg.dudy, sv * dg.dvdy],
            "uv", "uv mapping is not the scaled and shifted parameters", tol=1e-9)
    vs, vt = g.vec3(r), g.vec3(r)
    a, b = r.uniform(-2, 2), r.uniform(-2, 2)
    m = tm.PlannarMapping2D(g.V(vs), g.V(vt), a, b) if r.random() < .8 else None
    if m is None:
        m, a, b = tm.PlannarMapping2D(g.V(vs), g.V(vt)), 0., 0.
    got = m(dg)
    p, x, y = f3(dg.p), f3(dg.dpdx), f3(dg.dpdy)
    c.close(np.array(got, dtype=float), [a + p.dot(vs), b + p.dot(vt), x.dot(vs), x.dot(vt), y.dot(vs), y.dot(vt)],
            "planar", "planar mapping is not the two projections", tol=1e-9)
    T, mm = w2t(r)
    q, qx, qy = tm.IdentityMapping3D(T)(dg)
    c.close(f3(q), g.m_pt(mm, p.tolist()), "solid", "3d mapping does not transform the point", tol=1e-7)
    c.close(f3(qx), g.m_vec(mm, x.tolist()), "solid-dx", "3d mapping does not transform the footprint as vectors", tol=1e-7)
    c.close(f3(qy), g.m_vec(mm, y.tolist()), "solid-dy", "3d mapping does not transform the footprint as vectors", tol=1e-7)
    w.done()


def sph(v):
    return [math.acos(max(-1., min(1., v[2]))) / math.pi, (math.atan2(v[1], v[0]) % (2 * math.pi)) / (2 * math.pi)]


def cyl(v):
    return [(math.pi + math.atan2(v[1], v[0])) / (2 * math.pi), v[2]]


def wrapdiff(a, b):
    d = a - b
    return d - round(d)


@task(quick=800, thorough=16000, min_events=5000)
def round_maps(c):
    """spherical and cylindrical mappings: formula, derivatives to first order, also across the seam"""
    r = c.rng
    T, mm = w2t(r)
    seam = r.random() < .3
    cylindrical = bool(r.randrange(2))
    # a point chosen in texture space
    v = g.unit(r)
    while math.hypot(v[0], v[1]) < .1:
        v = g.unit(r)
    inv = g.m_inv_affine(mm)
    eps = 1e-5
    if seam:
        rho = math.hypot(v[0], v[1])
        ang = r.choice([1e-8, -1e-8, 1e-7])
        v = [(-1 if cylindrical else 1) * rho * math.cos(ang), rho * math.sin(ang), v[2]]
        c.event("seam")
    rad = math.exp(r.uniform(-1, 1))
    pt = g.m_pt(inv, [x * rad for x in v])
    dg = hit(r)
    dg.p = g.P(pt)
    tx, ty = [[r.gauss(0, 1) * eps * rad for _ in range(3)] for _ in range(2)]
    dg.dpdx, dg.dpdy = g.V(g.m_vec(inv, tx)), g.V(g.m_vec(inv, ty))
    c.note(v=v, rad=rad, m=mm, cylindrical=cylindrical)
    c.sig(v, rad, cylindrical)
    w = Watch(c, dg)
    got = [float(x) for x in (tm.CylindricalMapping2D if cylindrical else tm.SphericalMapping2D)(T)(dg)]
    w.done()
    fn = cyl if cylindrical else sph
    want = fn(v)
    k, o = (0, 1) if cylindrical else (1, 0)     # k: the angle around the axis
    c.close(wrapdiff(got[k], want[k]), 0., "angle", "wrong angle around the axis", tol=1e-7, st=got, wanted=want)
    c.check(-1e-9 <= got[k] <= 1 + 1e-9, "angle-range", "angle coordinate outside [0,1]", got=got)
    c.close(got[o], want[o], "height", "wrong coordinate along the axis", tol=1e-7, st=got, wanted=want)
    # first order: derivative of the formula
    rho2 = v[0] ** 2 + v[1] ** 2
    for d, (a, b), nm in ((tx, (got[2], got[3]), "dx"), (ty, (got[4], got[5]), "dy")):
        d = [x / rad for x in d]
        dz = d[2] - v[2] * g.dot(d, v)
        dphi = (v[0] * d[1] - v[1] * d[0]) / rho2 / (2 * math.pi)
        dh = dz if cylindrical else -dz / math.sqrt(max(1e-12, 1 - v[2] ** 2)) / math.pi
        wk, wo = dphi, dh
        gk, go = (a, b) if cylindrical else (b, a)
        big = g.ln(d)
        c.check(abs(gk - wk) <= .02 * big, "first-order-angle", "change of the angle coordinate is not first-order", axis=nm, got=gk, want=wk, seam=seam)
        c.check(abs(go - wo) <= .02 * big, "first-order-height", "change of the axis coordinate is not first-order", axis=nm, got=go, want=wo)


# ------------------------------------------------------------ noise

def cell_pt(r):
    return [r.choice([r.randrange(-5, 6), r.randrange(-300, 300), r.choice([-256, -1, 0, 255, 256])]) for _ in range(3)]


@task(quick=500, thorough=10000, min_events=4000)
def noise_field(c):
    r = c.rng
    q = cell_pt(r)
    f = [r.random() for _ in range(3)]
    p = [a + b for a, b in zip(q, f)]
    c.note(cell=q, frac=f)
    c.sig(q, f)
    mk = g.P if r.random() < .5 else (lambda v: list(v))
    c.check(float(noise(mk([float(x) for x in q]))) == 0., "lattice", "noise is not zero at a lattice point")
    v = float(noise(mk(p)))
    c.check(math.isfinite(v) and abs(v) <= 1.1, "bounded", "noise leaves its range", v=v)
    c.check(float(noise(mk(p))) == v, "repeatable", "noise of the same point differs")
    # continuity inside, and across every kind of cell border
    for _ in range(6):
        h = 10 ** r.uniform(-7, -3)
        d = g.unit(r)
        e = list(p)
        k = r.randrange(4)
        ax = r.sample(range(3), k)
        for i in ax:
            e[i] = float(q[i] + r.randrange(2))
        lo = [x - .5 * h * y for x, y in zip(e, d)]
        hi = [x + .5 * h * y for x, y in zip(e, d)]
        a, b, m = float(noise(mk(lo))), float(noise(mk(hi))), float(noise(mk(e)))
        c.event("faces%d" % k)
        c.check(abs(a - b) <= 8. * h and abs(a - m) <= 8. * h, "continuous", "noise jumps", at=e, dir=d, h=h, a=a, b=b, mid=m)
        # smooth: one-sided slopes agree
        h = 1e-4
        a, b = float(noise(mk([x - h * y for x, y in zip(e, d)]))), float(noise(mk([x + h * y for x, y in zip(e, d)])))
        c.check(abs((b - m) - (m - a)) <= 60. * h * h + 1e-12, "smooth", "noise has a crease", at=e, dir=d, a=a, b=b, mid=m)
    # bounded where a cell is expected to be extreme
    m = float(noise(mk([x + .5 for x in q])))
    c.check(abs(m) <= 1.1, "bounded", "noise leaves its range", v=m)


@task(quick=8, thorough=160, min_events=16)
def noise_spread(c):
    """noise is not constant, not periodic in a few cells, and balanced around zero"""
    r = c.rng
    n = 1500
    c.sig(c.index)
    o = [r.randrange(-1000, 1000) for _ in range(3)]
    v = np.array([float(noise([o[0] + r.uniform(0, 64), o[1] + r.uniform(0, 64), o[2] + r.uniform(0, 64)])) for _ in range(n)])
    c.note(offset=o, mean=float(v.mean()), sd=float(v.std()))
    c.check(abs(v.mean()) <= 7 * v.std() / math.sqrt(n) + 1e-3, "mean", "noise is not balanced around zero", mean=float(v.mean()), sd=float(v.std()))
    c.check(v.std() > .1 and v.max() > .3 and v.min() < -.3, "spread", "noise hardly varies", sd=float(v.std()))


def nz(p):
    return float(noise([float(x) for x in p]))


def ref_fractal(p, dx, dy, omega, octv, absolute):
    s2 = max(sum(x * x for x in dx), sum(x * x for x in dy))
    f = float(octv) if s2 == 0 else min(octv, 1. - .5 * math.log(s2, 2))
    n = int(math.floor(f))
    s, l, o = 0., 1., 1.
    A = abs if absolute else (lambda x: x)
    for _ in range(n):
        s += o * A(nz([l * x for x in p]))
        l *= 1.99
        o *= omega
    x = (f - n - .3) / .4
    x = min(1., max(0., x))
    n = max(n, 0)
    return s + o * x * x * (3 - 2 * x) * A(nz([l * x_ for x_ in p])), f


@task(quick=400, thorough=8000, min_events=1200)
def fractal(c):
    """octave sums, their textures, and the smooth step"""
    r = c.rng
    T, mm = w2t(r)
    dg = hit(r)
    if r.random() < .3:      # footprints around the fading of an octave
        f = 2. ** -r.uniform(0, 5)
        d = g.unit(r)
        dg.dpdx, dg.dpdy = g.V(g.m_vec(g.m_inv_affine(mm), [f * x for x in d])), geo.Vector(0., 0., 0.)
    omega, octv = r.uniform(.1, .9), r.randrange(1, 9)
    mp = tm.IdentityMapping3D(T)
    q = g.m_pt(mm, f3(dg.p).tolist())
    dx, dy = g.m_vec(mm, f3(dg.dpdx).tolist()), g.m_vec(mm, f3(dg.dpdy).tolist())
    c.note(p=q, dx=dx, dy=dy, omega=omega, octaves=octv)
    c.sig(q, omega, octv)
    w = Watch(c, dg)
    big = 1. / (1 - omega)
    want, f = ref_fractal(q, dx, dy, omega, octv, False)
    if abs(f - round(f)) < 1e-9 and f < octv:
        return
    a, b = float(FBm(g.P(q), g.V(dx), g.V(dy), omega, octv)), float(tt.FBmTexture(octv, omega, mp)(dg))
    c.close(a, want, "fbm", "fractal noise is not the sum of its octaves", tol=1e-5, rel=big)
    c.close(b, want, "fbm-texture", "fBm texture differs from fBm of the mapped point", tol=1e-5, rel=big)
    want, f = ref_fractal(q, dx, dy, omega, octv, True)
    a, b = float(turbulence(g.P(q), g.V(dx), g.V(dy), omega, octv)), float(tt.WrinkledTexture(octv, omega, mp)(dg))
    c.check(a >= 0., "turbulence-sign", "turbulence is negative", a=a)
    c.close(a, want, "turbulence", "turbulence is not the sum of the sizes of its octaves", tol=1e-5, rel=big)
    c.close(b, want, "wrinkled", "wrinkled texture differs from turbulence of the mapped point", tol=1e-5, rel=big)
    lo = [.1 * x for x in q]
    w1, f1 = ref_fractal(lo, [.1 * x for x in dx], [.1 * x for x in dy], .5, 3, False)
    w2, f2 = ref_fractal(q, dx, dy, .5, 6, False)
    if min(abs(f1 - round(f1)), abs(f2 - round(f2))) > 1e-9 or max(dx + dy) == 0:
        c.close(float(tt.WindyTexture(mp)(dg)), abs(w1) * w2, "windy", "windy texture is not strength times wave", tol=1e-5)
    w.done()
    lo = r.uniform(-3, 3)
    hi = lo + r.uniform(.1, 4)
    x = r.choice([lo, hi, r.uniform(lo, hi), lo - r.random(), hi + r.random()])
    y = min(1., max(0., (x - lo) / (hi - lo)))
    c.close(float(smooth_step(lo, hi, x)), y * y * (3 - 2 * y), "smooth-step", "smooth step is not a step between its limits", tol=1e-9)


# ------------------------------------------------------------ textures

class Const2D(tm.TextureMapping2D):
    def __init__(self, v):
        self.v = list(v)

    def __call__(self, dg):
        return list(self.v)


class Const3D(tm.TextureMapping3D):
    def __init__(self, p, dx, dy):
        self.p, self.dx, self.dy = p, dx, dy

    def __call__(self, dg):
        return [self.p, self.dx, self.dy]


def value(r, colour):
    if colour:
        v = [r.uniform(0, 3) for _ in range(3)]
        return Spectrum.from_rgb(v), np.array(v)
    v = r.uniform(0, 3)
    return v, np.array([v])


def arr(x):
    return np.array(x, dtype=float).ravel()


def leaf(r, colour):
    v, a = value(r, colour)
    return tt.ConstantTexture(v), a


@task(quick=700, thorough=14000, min_events=3000)
def combos(c):
    """constant, scale, mix, bilinear and uv textures, nested"""
    r = c.rng
    dg = hit(r)
    w = Watch(c, dg)
    colour = bool(r.randrange(2))
    mp = tm.UVMapping2D(*[r.uniform(-2, 2) for _ in range(4)])
    s, t = mp.su * dg.u + mp.du, mp.sv * dg.v + mp.dv
    kinds = []

    def build(depth):
        k = r.randrange(4) if depth else 0
        if k == 0:
            return leaf(r, colour)
        if k == 1:
            kinds.append("scale")
            a, A = build(depth - 1)
            b, B = build(depth - 1)
            return tt.ScaleTexture(a, b), A * B
        if k == 2:
            kinds.append("mix")
            a, A = build(depth - 1)
            b, B = build(depth - 1)
            x = r.choice([0., 1., r.random()])
            return tt.MixTexture(a, b, tt.ConstantTexture(x)), (1 - x) * A + x * B
        kinds.append("bilerp")
        (a, A), (b, B), (d, D), (e, E) = [value(r, colour) for _ in range(4)]
        return tt.BilerpTexture(mp, a, b, d, e), (1 - s) * (1 - t) * A + (1 - s) * t * B + s * (1 - t) * D + s * t * E
    x, X = build(3)
    c.note(kinds=kinds, colour=colour, uv=[dg.u, dg.v])
    c.sig(kinds, colour, X)
    for k in kinds:
        c.event(k)
    got = x(dg)
    c.close(arr(got), X, "value", "texture does not evaluate its formula", tol=1e-7, kinds=kinds)
    c.close(arr(x(dg)), arr(got), "repeat", "second evaluation differs", tol=0.)
    if colour:
        c.check(isinstance(got, Spectrum), "type", "a colour texture does not give a colour", got=repr(type(got)))
    uv = tt.UVTexture(mp)(dg)
    c.close(arr(uv.to_rgb()), [s - math.floor(s), t - math.floor(t), 0.], "uv", "uv texture is not the fractional coordinates", tol=1e-9)
    v, V = value(r, colour)
    c.check(tt.ConstantTexture(v)(dg) is v or bool((arr(tt.ConstantTexture(v)(dg)) == V).all()), "constant", "constant texture is not its value")
    w.done()


def odd_fraction(a, b):
    """part of [a,b] in odd unit cells"""
    def F(x):
        k = math.floor(x / 2)
        return k + max(x - 2 * k - 1, 0)
    return (F(b) - F(a)) / (b - a)


@task(quick=900, thorough=18000, min_events=3500)
def checker(c):
    r = c.rng
    colour = bool(r.randrange(2))
    a, A = leaf(r, colour)
    b, B = leaf(r, colour)
    dg = hit(r)
    w = Watch(c, dg)
    s, t = r.uniform(-6, 6), r.uniform(-6, 6)
    f = r.choice([0., 1e-3, .1, .4, .9, 3.])
    ders = [r.uniform(-1, 1) * f * r.choice([0., 1., 1.]) for _ in range(4)]
    mp = Const2D([s, t] + ders)
    ds, dt = max(abs(ders[0]), abs(ders[2])), max(abs(ders[1]), abs(ders[3]))
    c.note(s=s, t=t, ders=ders, colour=colour)
    c.sig(s, t, ders)
    cell = A if (math.floor(s) + math.floor(t)) % 2 == 0 else B
    for aa in ("none", None, "NONE"):
        c.close(arr(tt.Chekcerboard2DTexture(mp, a, b, aa)(dg)), cell, "point", "checkerboard does not alternate with the cells", tol=1e-9)
    got = arr(tt.Chekcerboard2DTexture(mp, a, b)(dg)) if r.random() < .5 else arr(tt.Chekcerboard2DTexture(mp, a, b, "closedform")(dg))
    edge = min(abs(x - round(x)) for x in (s - ds, s + ds, t - dt, t + dt))
    if edge > 1e-9:
        inside = math.floor(s - ds) == math.floor(s + ds) and math.floor(t - dt) == math.floor(t + dt)
        if inside:
            c.event("inside")
            c.close(got, cell, "inside", "a footprint inside one cell does not show that cell", tol=1e-9)
        else:
            lo, hi = np.minimum(A, B), np.maximum(A, B)
            c.check(bool((got >= lo - 1e-9).all() and (got <= hi + 1e-9).all()), "between", "anti-aliased value is not between the two cells", got=got, A=A, B=B, ds=ds, dt=dt)
            if ds > 1 or dt > 1:
                c.event("wide")
                c.close(got, .5 * (A + B), "wide", "a wide footprint is not the average", tol=1e-7)
            else:
                c.event("filtered")
                si = odd_fraction(s - ds, s + ds) if ds else math.floor(s) % 2
                ti = odd_fraction(t - dt, t + dt) if dt else math.floor(t) % 2
                x = si + ti - 2 * si * ti
                c.close(got, (1 - x) * A + x * B, "filtered", "anti-aliased value is not the covered share of the cells", tol=1e-6, ds=ds, dt=dt)
    p = [r.uniform(-5, 5) for _ in range(3)]
    z = geo.Vector(0., 0., 0.)
    got = tt.Checkboard3DTexture(Const3D(g.P(p), z, z), a, b)(dg)
    c.close(arr(got), A if sum(math.floor(x) for x in p) % 2 == 0 else B, "solid", "3d checkerboard does not alternate with the cells", tol=1e-9, p=p)
    w.done()


@task(quick=900, thorough=18000, min_events=1500)
def dots(c):
    """inside or outside value; outside shows between the cells' dots, every dot is a disk inside its cell"""
    r = c.rng
    dg = hit(r)
    w = Watch(c, dg)
    sc, tc = r.randrange(-20, 20), r.randrange(-20, 20)
    s, t = sc + r.uniform(-.5, .5), tc + r.uniform(-.5, .5)

    def at(x, y):
        return float(tt.DotsTexture(Const2D([x, y, 0, 0, 0, 0]), tt.ConstantTexture(1.), tt.ConstantTexture(0.))(dg))
    v = at(s, t)
    c.note(cell=[sc, tc])
    c.sig(s, t)
    c.check(v in (0., 1.), "values", "neither the inside nor the outside value", v=v)
    # at cell corners there is never a dot
    for x in (-.499, .499):
        for y in (-.499, .499):
            c.check(at(sc + x, tc + y) == 0., "corner", "a dot reaches the corner of its cell", at=[sc + x, tc + y])
    if c.index % 12 == 0:
        n = 21
        grid = [[at(sc + (i + .5) / n - .5, tc + (j + .5) / n - .5) for i in range(n)] for j in range(n)]
        pts = [((i + .5) / n - .5, (j + .5) / n - .5) for j in range(n) for i in range(n) if grid[j][i] == 1.]
        c.event("dot" if pts else "empty")
        if pts:
            cx, cy = sum(p[0] for p in pts) / len(pts), sum(p[1] for p in pts) / len(pts)
            area = len(pts) / float(n * n)
            rad = math.sqrt(area / math.pi)
            c.check(abs(rad - .35) < .04, "radius", "a dot has another radius", rad=rad)
            far = max(math.hypot(p[0] - cx, p[1] - cy) for p in pts)
            c.check(far < .35 + .06, "disk", "a dot is not a disk", far=far)
            c.check(abs(cx) < .19 and abs(cy) < .19, "centre", "a dot leaves its cell", c=[cx, cy])
        else:
            c.check(True, "empty", "")
    w.done()


@task(quick=6, thorough=100, min_events=6)
def dot_share(c):
    """both kinds of cells occur"""
    r = c.rng
    dg = hit(r)
    o = [r.randrange(-200, 200), r.randrange(-200, 200)]
    c.sig(o)
    n = 0
    for i in range(150):
        x, y = o[0] + i % 15, o[1] + i // 15
        n += float(tt.DotsTexture(Const2D([x, y, 0, 0, 0, 0]), tt.ConstantTexture(1.), tt.ConstantTexture(0.))(dg))
    c.note(offset=o, dots=n)
    c.check(10 <= n <= 140, "share", "cells with and without dots do not both occur", n=n)


SPL = np.array([[.58, .58, .6], [.58, .58, .6], [.58, .58, .6], [.5, .5, .5], [.6, .59, .58], [.58, .58, .6],
                [.58, .58, .6], [.2, .2, .33], [.58, .58, .6]])


@task(quick=500, thorough=10000, min_events=900)
def marble(c):
    r = c.rng
    T, mm = w2t(r)
    dg = hit(r)
    if r.random() < .3:
        dg.dpdx = dg.dpdy = geo.Vector(0., 0., 0.)
    w = Watch(c, dg)
    octv, omega, scale, var = r.randrange(1, 8), r.uniform(.1, .9), r.uniform(.1, 4), r.choice([0., r.uniform(0, 2)])
    got = arr(tt.MarbleTexture(octv, omega, scale, var, tm.IdentityMapping3D(T))(dg).to_rgb())
    w.done()
    c.note(octaves=octv, omega=omega, scale=scale, var=var, p=f3(dg.p), m=mm)
    c.sig(octv, omega, scale, var)
    c.check(bool((got >= 1.5 * SPL.min(axis=0) - 1e-6).all() and (got <= 1.5 * SPL.max(axis=0) + 1e-6).all()), "range", "marble leaves the range of its colours", got=got)
    q = [scale * x for x in g.m_pt(mm, f3(dg.p).tolist())]
    dx, dy = [[scale * x for x in g.m_vec(mm, f3(v).tolist())] for v in (dg.dpdx, dg.dpdy)]
    fb, f = ref_fractal(q, dx, dy, omega, octv, False)
    if abs(f - round(f)) < 1e-9 and f < octv:
        return
    t = .5 + .5 * math.sin(q[1] + var * fb)
    k = min(5, int(math.floor(t * 6)))
    x = t * 6 - k
    if min(x, 1 - x) < 1e-5 * (1 + abs(q[1])):
        return
    s = [SPL[k + i] for i in range(4)]
    while len(s) > 1:
        s = [(1 - x) * s[i] + x * s[i + 1] for i in range(len(s) - 1)]
    c.close(got, 1.5 * s[0], "value", "marble is not its colour spline", tol=1e-4)
