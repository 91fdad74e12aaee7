"""P27 integrators transport light"""
import math
import shutil
import tempfile
import contextlib
from core import tasklist
import gen as g
import bxdfs as B
import lights as LT
import render as R
import pytracer.geometry as geo
import pytracer.light as L
from pytracer.transform import Transform
from pytracer.reflection import Lambertian
from pytracer.shape import Sphere, Disk, create_triangle_mesh
from pytracer.aggregate import GeometricPrimitive, Intersection
from pytracer.integrator import DirectLightingIntegrator, WhittedIntegrator, PathIntegrator, LightStrategy
from checks.p26 import Surf, strat, lin, decide, near, above, facing
from checks.p24 import solid

TASKS, task = tasklist()
RULE = ("closed furnaces (spheres and polyhedra), integrating spheres with a lamp, specular surfaces in environments traced against a reference tree, "
        "emitters seen directly, in mirrors, by matte surfaces and through matte-mirror chains, facing mirrors; depth limits 0..8; distinct by scene and depth")
ASSUMPTIONS = ["means are decided at 9 standard errors of 24 replicates",
               "a path of depth limit D scatters at most D+1 times; Whitted and direct recursion of limit D follows at most D-1 specular bounces"]
PI = math.pi


@contextlib.contextmanager
def folder():
    d = tempfile.mkdtemp(prefix="p27-")
    try:
        yield d
    finally:
        shutil.rmtree(d)


def rho(r, hi=.95):
    return [r.uniform(.05, hi) for _ in range(3)] if r.random() < .7 else [r.uniform(.05, hi)] * 3


def integ(kind, depth):
    if kind == "path":
        return PathIntegrator(depth)
    if kind == "whitted":
        return WhittedIntegrator(depth)
    return DirectLightingIntegrator(LightStrategy.SAMPLE_ALL_UNIFORM if kind == "direct-all" else LightStrategy.SAMPLE_ONE_UNIFORM, depth)


KINDS = ["path", "whitted", "direct-all", "direct-one"]


def request(it, sc):
    sm = R.Smp()
    it.request_samples(None, sm, sc)
    return sm


def fill(sm, r, time):
    sm.fill(r)
    sm.time = time
    return sm


def radiance(ren, it, sc, r, o, d, time=0., sm=None):
    """one evaluation along a camera ray, through the renderer"""
    if sm is None:
        sm = fill(request(it, sc), r, time)
    ray = geo.RayDifferential(g.P(o), g.V(d), 0., math.inf, 0, time)
    v, _ = ren.li(sc, ray, sm, Intersection(), R.Rng(r.random()))
    return LT.rgb(v)


def replicates(c, r, ren, it, sc, o, d, time, reps=24, n=4):
    sm = request(it, sc)
    out = []
    k1, k2 = len(sm.n1D), len(sm.n2D)
    for _ in range(reps):
        # stratify the first sample of every stream
        ones = [lin(r, n * n) for _ in range(k1)]
        twos = [strat(r, n) for _ in range(k2)]
        acc = [0.] * 3
        for j in range(n * n):
            fill(sm, r, time)
            for i in range(k1):
                sm.oneD[i][0] = ones[i][j]
            for i in range(k2):
                sm.twoD[i][0][0], sm.twoD[i][0][1] = twos[i][j]
            v = radiance(ren, it, sc, r, o, d, time, sm)
            if not all(math.isfinite(x) and x >= 0. for x in v):
                c.check(False, "valid", "radiance is not finite and non-negative", got=v)
                return None
            acc = g.add(acc, v)
        out.append(g.mul(acc, 1. / (n * n)))
    c.check(True, "valid")
    c.check(all(x == time for x in sc.times), "time", "every ray of a path must be at the camera ray's time", got=sorted(set(sc.times))[:4], want=time)
    return out


def ball(T, rad, ro):
    return Sphere(T, T.inverse(), ro, rad, -rad, rad, 360.)


def room(r, mat, emit):
    """a closed convex room: (prims, light or None, world point inside, area light)"""
    T, M, desc = g.rigid(r)
    if r.random() < .6:
        rad = math.exp(r.uniform(-.5, 1.))
        sh = ball(T, rad, True)
        light = L.DiffuseAreaLight(T, LT.spec(emit), 1, sh) if emit else None
        prims = [GeometricPrimitive(sh, mat, light)]
        ins = g.m_pt(M, g.mul(g.gunit(r), rad * r.uniform(0, .8)))
        return prims, light, ins, dict(room="sphere", rad=rad, T=desc)
    v, f, k = solid(r)
    mesh = create_triangle_mesh(T, T.inverse(), True, {'indices': [i for t in f for i in t], 'P': [g.P(q) for q in v]})
    # make sure the lit side is inside whatever the winding convention
    light = L.DiffuseAreaLight(T, LT.spec(emit), 1, mesh) if emit else None
    tris = list(light.shape_set.shapes) if light else list(mesh.refine())
    prims = [GeometricPrimitive(x, mat, light) for x in tris]
    cen = [sum(q[i] for q in v) / len(v) for i in range(3)]
    ins = g.m_pt(M, [cen[i] + .3 * min(abs(q[i] - cen[i]) for q in v if abs(q[i] - cen[i]) > 1e-9) * r.uniform(-.3, .3) for i in range(3)])
    return prims, light, ins, dict(room=k, T=desc, v=v)


@task(quick=18, thorough=600, min_events=30)
def furnace(c):
    """closed uniform emission Le and albedo rho: Le * (1 + rho + ... ) up to the depth bound"""
    r = c.rng
    q = rho(r)
    E = LT.colour(r, 3.)
    prims, light, o, info = room(r, R.matte(q), E)
    kind = r.choice(["path", "path", "path", "whitted", "direct-all", "direct-one"])
    D = r.choice([0, 1, 2, 3, 5]) if kind == "path" else r.choice([1, 2, 5])
    sc = R.Sc(R.agg(prims, r), [light])
    ren = R.Ren(integ(kind, D))
    t = r.random()
    d = g.gunit(r)
    c.note(integrator=kind, depth=D, rho=q, E=E, o=o, d=d, **info)
    c.sig(kind, D, info, q)
    one = radiance(ren, ren.surf_integrator, sc, r, o, d, t)
    if one == [0.] * 3:
        # the lit side faces out: not a furnace
        c.event("unlit")
        return
    terms = D + 2 if kind == "path" else 2
    want = [E[k] * sum(q[k] ** j for j in range(terms)) for k in range(3)]
    reps = replicates(c, r, ren, ren.surf_integrator, sc, o, d, t, 24, 2 if kind == "path" and D > 2 else 3)
    if reps is None:
        return
    decide(c, reps, want, [1e-9] * 3, "mean", integrator=kind, depth=D)
    c.event("%s.%d" % (kind, D))


@task(quick=260, thorough=8000, min_events=400)
def lamp(c):
    """a lamp at the centre of a matte sphere: every path sample is exact until roulette begins"""
    r = c.rng
    q = rho(r)
    T, M, desc = g.rigid(r)
    rad = math.exp(r.uniform(-.5, 1.))
    ctr = g.m_pt(M, [0., 0., 0.])
    I = LT.colour(r)
    light = L.PointLight(Transform.translate(g.V(ctr)), LT.spec(I))
    sc = R.Sc(R.agg([GeometricPrimitive(ball(T, rad, r.random() < .5), R.matte(q), None)], r), [light])
    kind = r.choice(["path", "path", "path", "whitted", "direct-all", "direct-one"])
    D = r.choice([0, 1, 2, 3, 4]) if kind == "path" else r.choice([1, 2, 5])
    ren = R.Ren(integ(kind, D))
    o = g.add(ctr, g.mul(g.gunit(r), rad * r.uniform(0, .9)))
    d = g.gunit(r)
    t = r.random()
    c.note(integrator=kind, depth=D, rho=q, I=I, rad=rad, T=desc, o=o, d=d)
    c.sig(kind, D, q, rad, desc)
    terms = D + 1 if kind == "path" else 1
    want = [I[k] * q[k] / PI / rad ** 2 * sum(q[k] ** j for j in range(terms)) for k in range(3)]
    got = radiance(ren, ren.surf_integrator, sc, r, o, d, t)
    c.close(got, want, "exact", "radiance is not the sum of bounces up to the depth bound", tol=2e-4 * max(want), rel=1., integrator=kind, depth=D)
    c.check(all(x == t for x in sc.times), "time", "every ray of a path must be at the camera ray's time", got=sorted(set(sc.times))[:4], want=t)
    if kind == "path":
        # one intersection for the camera ray and one per further vertex (the lamp needs only shadow tests)
        c.check(sc.n <= D + 1, "path-length", "a path is longer than its depth bound", got=sc.n - 1, want=D)
        c.check(sc.n == D + 1, "path-short", "a lossless-sampled path in a closed room ended before its depth bound and before roulette", got=sc.n - 1, want=D)
    c.event("%s.%d" % (kind, D))


@task(quick=14, thorough=800, min_events=35)
def roulette(c):
    """beyond the first bounces paths end at random: still unbiased; participating media attenuate every edge"""
    r = c.rng
    q = [r.uniform(.75, .95) for _ in range(3)]
    T, M, desc = g.rigid(r)
    rad = math.exp(r.uniform(-.5, 1.))
    ctr = g.m_pt(M, [0., 0., 0.])
    I = LT.colour(r)
    light = L.PointLight(Transform.translate(g.V(ctr)), LT.spec(I))
    sigma = 0. if r.random() < .5 else r.uniform(.1, 1.) / rad
    D = r.choice([5, 6, 8]) if sigma == 0. else r.choice([1, 2, 3, 5])
    sc = R.Sc(R.agg([GeometricPrimitive(ball(T, rad, r.random() < .5), R.matte(q), None)], r), [light])
    it = PathIntegrator(D)
    ren = R.Ren(it, sigma)
    o = g.add(ctr, g.mul(g.gunit(r), rad * r.uniform(0, .9)))
    d = g.gunit(r)
    c.note(depth=D, rho=q, I=I, rad=rad, sigma=sigma, o=o, d=d)
    c.sig(D, q, rad, sigma)
    x = 2 * sigma * rad
    m = 1. if sigma == 0. else 2 * (1 - (1 + x) * math.exp(-x)) / (x * x)
    want = [I[k] * q[k] / PI / rad ** 2 * math.exp(-sigma * rad) * sum((q[k] * m) ** j for j in range(D + 1)) for k in range(3)]
    reps = replicates(c, r, ren, it, sc, o, d, r.random(), 24, 3)
    if reps is None:
        return
    decide(c, reps, want, [2e-4 * x for x in want], "mean", depth=D, sigma=sigma)
    c.event("medium" if sigma else "vacuum.%d" % D)


@task(quick=3, thorough=120, min_events=4)
def layers(c):
    """a stack of media of falling index in front of a constant sky: radiance grows by the squared index ratio at every
    interface, also when later interfaces are reached by chance only"""
    r = c.rng
    from pytracer.reflection import SpecularTransmission
    T, M, desc = g.rigid(r)
    K = r.choice([5, 5, 5, 5, 6])
    q = r.uniform(1.2, 1.3)
    E = LT.colour(r)
    tint = [r.uniform(.9, 1.) for _ in range(3)]
    prims = []
    for k in range(K):
        Tk = T * Transform.translate(g.V([0., 0., float(k)]))
        # outward normal towards the camera, which is on the low side
        mat = R.Mat([SpecularTransmission(LT.spec(tint), q ** (K - k), q ** (K - k - 1))], 1. / q)
        prims.append(GeometricPrimitive(Disk(Tk, Tk.inverse(), True, 0., 50., 0., 360.), mat, None))
    light = L.InfiniteAreaLight(T, LT.spec(E), 1)
    sc = R.Sc(R.agg(prims, r), [light])
    D = r.choice([K, K + 1, K + 3])
    ren = R.Ren(PathIntegrator(D))
    o, d = g.m_pt(M, [r.uniform(-3, 3), r.uniform(-3, 3), -1.]), g.m_vec(M, [0., 0., 1.])
    F = ((q - 1.) / (q + 1.)) ** 2
    c.note(depth=D, layers=K, ratio=q, tint=tint, E=E, T=desc)
    c.sig(D, K, q, E)
    want = [E[i] * ((1. - F) * tint[i] * q * q) ** K for i in range(3)]
    reps = replicates(c, r, ren, ren.surf_integrator, sc, o, d, r.random(), 24, 3 if K == 5 else 5)
    if reps is None:
        return
    decide(c, reps, want, [0.] * 3, "mean", depth=D, layers=K)
    c.event("layers.%d" % K)


@task(quick=24, thorough=600, min_events=60)
def open_sky(c):
    """a convex matte body under a constant sky returns rho times the sky, whatever the depth"""
    r = c.rng
    q = rho(r)
    T, M, desc = g.rigid(r)
    E = LT.colour(r, 3.)
    kind = r.choice(KINDS)
    D = r.choice([0, 1, 3, 6]) if kind == "path" else 1
    if r.random() < .5:
        prims = [GeometricPrimitive(ball(T, 1., False), R.matte(q), None)]
        info = "sphere"
        tgt = g.m_pt(M, g.mul(g.gunit(r), .5))
    else:
        v, f, info = solid(r)
        mesh = create_triangle_mesh(T, T.inverse(), False, {'indices': [i for t in f for i in t], 'P': [g.P(x) for x in v]})
        prims = [GeometricPrimitive(x, R.matte(q), None) for x in mesh.refine()]
        tgt = g.m_pt(M, g.mul(g.gunit(r), .1))
    light = L.InfiniteAreaLight(T, LT.spec(E), 1)
    sc = R.Sc(R.agg(prims, r), [light])
    it = integ(kind, D)
    ren = R.Ren(it)
    w = g.gunit(r)
    o = g.add(tgt, g.mul(w, 9.))
    c.note(integrator=kind, depth=D, body=info, rho=q, E=E, T=desc, o=o)
    c.sig(kind, D, info, q, desc)
    t = r.random()
    up = radiance(ren, it, sc, r, o, w, t)
    c.close(up, E, "background", "a ray that misses everything is not the sky", tol=1e-6)
    want = [E[k] * q[k] for k in range(3)]
    reps = replicates(c, r, ren, it, sc, o, g.mul(w, -1.), t, 24, 3)
    if reps is None:
        return
    decide(c, reps, want, [1e-9] * 3, "mean", integrator=kind, depth=D)
    c.event("%s.%s" % (kind, info))


# ---------------------------------------------------------------- specular
class Tree(object):
    """reference tracer for a glass-and-mirror ball in an environment"""

    def __init__(self, ctr, rad, lobes, env, ro=False):
        self.ctr, self.rad, self.lobes, self.env = ctr, rad, lobes, env
        self.edge = False

    def hit(self, o, d, skip):
        b = g.dot(g.sub(self.ctr, o), d)
        q = g.sub(g.add(o, g.mul(d, b)), self.ctr)
        m = self.rad ** 2 - g.dot(q, q)
        if abs(m) < 2e-3 * self.rad ** 2:
            self.edge = True
        if m <= 0:
            return None
        s = math.sqrt(m)
        for t in (b - s, b + s):
            if t > (1e-3 * self.rad if skip else 0.):
                return t
        return None

    def li(self, o, d, depth, limit, skip=False):
        t = self.hit(o, d, skip)
        if t is None:
            return self.env(d)
        p = g.add(o, g.mul(d, t))
        n = g.nrm(g.sub(p, self.ctr))
        out = [0.] * 3
        if depth + 1 >= limit:
            return out
        s, u, _ = g.onb(n)
        wo = [-g.dot(d, s), -g.dot(d, u), -g.dot(d, n)]
        if abs(wo[2]) < .03:
            self.edge = True
            return out
        for l in self.lobes:
            wi, f = l.out(wo)
            if wi is None or max(f) == 0.:
                continue
            if max(f) < 1e-9:
                self.edge = True
                continue
            w = g.add(g.add(g.mul(s, wi[0]), g.mul(u, wi[1])), g.mul(n, wi[2]))
            if abs(wi[2]) < .03:
                self.edge = True
            v = self.li(p, g.nrm(w), depth + 1, limit, True)
            out = [out[k] + f[k] * abs(wi[2]) * v[k] for k in range(3)]
        return out


@task(quick=220, thorough=8000, min_events=250)
def glass(c):
    """specular balls in an environment: the tree of reflections and refractions, to the depth limit"""
    r = c.rng
    T, M, desc = g.rigid(r)
    rad = math.exp(r.uniform(-.5, .5))
    ctr = g.m_pt(M, [0., 0., 0.])
    k = r.choice(["mirror", "glass", "both", "both"])
    lobes = ([B.mirror(r)] if k != "glass" else []) + ([B.glass(r)] if k != "mirror" else [])
    e = lobes[-1].ab[1] / lobes[-1].ab[0] if k != "mirror" else 1.
    mat = R.Mat([x.obj for x in lobes], e)
    kind = r.choice(["whitted", "direct-all", "direct-one"])
    D = r.choice([1, 2, 3, 4, 5])
    with folder() as fd:
        lit = LT.Lit(r, "infinite", fd)
    sc = R.Sc(R.agg([GeometricPrimitive(ball(T, rad, False), mat, None)], r), [lit.light])
    ren = R.Ren(integ(kind, D))
    o = g.add(ctr, g.mul(g.gunit(r), rad * r.choice([r.uniform(0, .9), r.uniform(1.2, 4)])))
    d = g.nrm(g.sub(g.add(ctr, g.mul(g.gunit(r), rad * r.uniform(0, .95))), o))
    c.note(kind=k, integrator=kind, depth=D, lobes=[x.desc for x in lobes], rad=rad, T=desc, o=o, d=d, env=lit.info)
    c.sig(kind, D, [x.desc for x in lobes], o, d)
    tr = Tree(ctr, rad, lobes, lambda w: lit.profile(w)[0])
    want = tr.li(o, d, 0, D)
    t = r.random()
    got = radiance(ren, ren.surf_integrator, sc, r, o, d, t)
    c.check(ren.deepest <= D, "depth", "recursion went deeper than the limit", got=ren.deepest, want=D)
    c.check(max(ren.depths) <= max(0, D - 1), "ray-depth", "a ray is deeper than the limit", got=max(ren.depths), want=D - 1)
    c.check(all(x == t for x in sc.times), "time", "every ray must be at the camera ray's time", got=sorted(set(sc.times))[:4], want=t)
    if tr.edge:
        return
    mx = float(lit.img.max())
    c.close(got, want, "tree", "specular surfaces do not show the reflected and refracted environment", tol=2e-4 * max(max(want), 1e-2 * mx), rel=1.)
    c.event("%s.%d" % (k, D))


@task(quick=200, thorough=6000, min_events=200)
def first_bounce(c):
    """one specular surface, all integrators: reflected + refracted environment exactly"""
    r = c.rng
    k = r.choice(["mirror", "glass", "both", "both"])
    lobes = ([B.mirror(r)] if k != "glass" else []) + ([B.glass(r)] if k != "mirror" else [])
    s = Surf(r, lobes, tilt=False)
    with folder() as fd:
        lit = LT.Lit(r, "infinite", fd)
    sc = R.Sc(R.agg(s.prims, r), [lit.light])
    kind = r.choice(["path", "path", "whitted", "direct-all", "direct-one"])
    D = r.choice([1, 2, 3, 5, 7]) if kind == "path" else r.choice([2, 3, 5])
    it = integ(kind, D)
    ren = R.Ren(it)
    s.see(c, sc)
    b = s.bsdf
    lo = g.lst(b.w2l(g.V(s.wo)))
    if abs(lo[2]) < .02:
        return
    want = [0.] * 3
    each = []
    for l in lobes:
        wi, f = l.out(lo)
        if wi is None or max(f) < 1e-9:
            if wi is not None and max(f) > 0:
                return
            each.append([0.] * 3)
            continue
        w = g.nrm(g.lst(b.l2w(g.V(wi))))
        e = lit.profile(w)[0]
        each.append([f[i] * abs(wi[2]) * e[i] for i in range(3)])
        want = g.add(want, each[-1])
    c.note(kind=k, integrator=kind, depth=D, env=lit.info, **s.info)
    c.sig(kind, D, s.info, lit.info)
    mx = float(lit.img.max())
    o, d = g.add(s.p, g.mul(s.wo, .5)), g.mul(s.wo, -1.)
    if kind == "path":
        got = [0.] * 3
        n = len(lobes)
        sm = request(it, sc)
        for j in range(n):
            fill(sm, r, 0.)
            for q in sm.oneD:
                q[:] = (j + r.uniform(.1, .9)) / n
            got = g.add(got, g.mul(radiance(ren, it, sc, r, o, d, 0., sm), 1. / n))
    else:
        got = radiance(ren, it, sc, r, o, d)
    c.close(got, want, "exact", "a specular surface does not show the reflected and refracted environment", tol=1e-4 * max(max(want), 1e-2 * mx), rel=1., each=each)
    c.event("%s.%s" % (kind, k))


# ---------------------------------------------------------------- emission counted once
@task(quick=240, thorough=8000, min_events=300)
def emitter(c):
    """an emitter seen directly, from behind, and in one or two mirrors"""
    r = c.rng
    how = r.choice(["direct", "behind", "mirror", "mirror", "two"])
    kind = r.choice(KINDS)
    D = r.choice([0, 1, 2, 3, 5, 6])
    E = LT.colour(r)
    o = [r.gauss(0, 2) for _ in range(3)]
    d = g.gunit(r)
    p, w, left = o, d, [1.] * 3
    prims = []
    lobes = []
    for _ in range({"mirror": 1, "two": 2}.get(how, 0)):
        q = g.add(p, g.mul(w, r.uniform(2, 4)))
        m = B.mirror(r)
        # a small mirror whose normal makes a moderate angle with the ray
        n = g.nrm(g.add(g.mul(w, -1.), g.mul(g.gunit(r), .6)))
        s, u, _ = g.onb(n)
        pts = [g.add(q, g.add(g.mul(s, .3 * math.cos(a)), g.mul(u, .3 * math.sin(a)))) for a in (.3, .3 + 2 * PI / 3, .3 + 4 * PI / 3)]
        prims += R.tri(R.facing_tri(pts, g.add(q, n)) if r.random() < .5 else pts, R.Mat([m.obj]))
        ct = -g.dot(w, n)
        sgn = 1. if g.dot(g.cross(g.sub(pts[1], pts[0]), g.sub(pts[2], pts[0])), n) > 0 else -1.
        wi, f = m.out([math.sqrt(1 - ct * ct), 0., ct])
        if m.desc and "diel" in m.desc:
            # a dielectric mirror tells its sides apart: read which side this is from the shading frame
            isect = Intersection()
            sc0 = R.Sc(R.agg(prims[-1:], r), [])
            ray = geo.RayDifferential(g.P(p), g.V(w), 0., math.inf)
            c.require(sc0.intersect(ray, isect), "mirror-hit", "a mirror in the way is missed")
            b = isect.get_bsdf(ray)
            lo = g.lst(b.w2l(g.V(g.mul(w, -1.))))
            wi, f = m.out(lo)
        if max(f) < 1e-9:
            return
        left = [left[k] * f[k] * ct for k in range(3)]
        lobes.append(m.desc)
        p, w = q, g.nrm(g.add(w, g.mul(n, 2 * ct)))
    q = g.add(p, g.mul(w, r.uniform(2, 4)))
    n = g.nrm(g.add(g.mul(w, -1.), g.mul(g.gunit(r), .6)))
    s, u, _ = g.onb(n)
    pts = [g.add(q, g.add(g.mul(s, .3 * math.cos(a)), g.mul(u, .3 * math.sin(a)))) for a in (.3, .3 + 2 * PI / 3, .3 + 4 * PI / 3)]
    pts = R.facing_tri(pts, g.add(q, n))
    if how == "behind":
        pts = [pts[0], pts[2], pts[1]]
    T = Transform()
    mesh = create_triangle_mesh(T, T, False, {'indices': [0, 1, 2], 'P': [g.P(x) for x in pts]})
    lights = [L.DiffuseAreaLight(T, LT.spec(E), 1, mesh)]
    prims += [GeometricPrimitive(x, R.black(), lights[0]) for x in mesh.refine()]
    if r.random() < .4:
        # another light elsewhere must not matter
        lights.insert(r.randrange(2), L.PointLight(Transform.translate(g.V(g.mul(g.gunit(r), 30.))), LT.spec([5.] * 3)))
    sc = R.Sc(R.agg(prims, r), lights)
    it = integ(kind, D)
    ren = R.Ren(it)
    # the mirrors may cross one another's rays: ask a plain walk
    nb = len(lobes)
    pos, dr = o, d
    chain = True
    for i in range(nb + 1):
        isect = Intersection()
        ray = geo.RayDifferential(g.P(pos), g.V(dr), 1e-4, math.inf)
        if not sc.intersect(ray, isect):
            chain = False
            break
        nn = g.nrm(g.lst(isect.dg.nn))
        is_light = isect.primitive.get_area_light() is not None
        if is_light != (i == nb):
            chain = False
            break
        pos = g.lst(isect.dg.p)
        dr = g.nrm(g.sub(dr, g.mul(nn, 2 * g.dot(dr, nn))))
    if not chain:
        return
    c.note(how=how, integrator=kind, depth=D, mirrors=lobes, E=E, o=o, d=d)
    c.sig(how, kind, D, lobes, E, o)
    reach = D >= nb if kind == "path" else nb == 0 or D >= nb + 1
    want = [E[k] * left[k] for k in range(3)] if reach and how != "behind" else [0.] * 3
    t = r.random()
    got = radiance(ren, it, sc, r, o, d, t)
    c.close(got, want, "once", "emission seen %s is not counted exactly once" % how, tol=1e-5 * max(max(want), 1e-3), rel=1., integrator=kind, depth=D)
    c.check(ren.deepest <= max(1, D), "depth", "recursion went deeper than the limit", got=ren.deepest, want=D)
    c.event("%s.%s%s" % (how, kind, "" if reach else ".beyond"))


@task(quick=28, thorough=700, min_events=25)
def diffuse_once(c):
    """a matte patch near an emitting ball: path tracing neither drops nor doubles the light found by scattering; with a mirror beside, the mirrored ball counts once more"""
    r = c.rng
    s = Surf(r, [B.lambert(r)], tilt=False)
    n = facing(s)
    E = LT.colour(r)
    w = above(r, s, .45)
    dist = r.uniform(1.5, 4)
    rad = dist * r.uniform(.2, .4)
    ctr = g.add(s.p, g.mul(w, dist))
    if g.dot(w, n) * dist < rad * 1.1:
        return
    T = Transform.translate(g.V(ctr))
    sh = ball(T, rad, False)
    light = L.DiffuseAreaLight(T, LT.spec(E), 1, sh)
    prims = s.prims + [GeometricPrimitive(sh, R.black(), light)]
    irr = PI * (rad / dist) ** 2 * g.dot(w, n)
    mirror = r.random() < .6
    kind = "path" if mirror else r.choice(["path", "path", "whitted", "direct-all", "direct-one"])
    D = r.choice([1, 2, 3, 5]) if kind == "path" else r.choice([1, 3])
    F = [0.] * 3
    if mirror:
        # a big plane mirror beyond the ball, roughly facing the patch
        m = g.nrm(g.add(n, g.mul(g.gunit(r), .3)))
        m = g.mul(m, -1.)
        off = max(g.dot(g.sub(ctr, s.p), g.mul(m, -1.)), 0.) + rad * 1.3 + .2
        q = g.sub(s.p, g.mul(m, off))
        img = g.sub(ctr, g.mul(m, 2 * g.dot(g.sub(ctr, q), m)))
        di = g.ln(g.sub(img, s.p))
        wi = g.mul(g.sub(img, s.p), 1. / di)
        # the ball hides its own image? the segment to the image must clear the ball
        ang = math.acos(max(-1., min(1., g.dot(wi, w))))
        if ang < math.asin(rad / dist) + math.asin(min(1., rad / di)) + .02 or g.dot(wi, n) * di < rad * 1.1:
            return
        u, v, _ = g.onb(m)
        big = 300.
        pts = [g.add(q, g.mul(u, 2 * big)), g.add(q, g.add(g.mul(u, -big), g.mul(v, 2 * big))), g.add(q, g.add(g.mul(u, -big), g.mul(v, -2 * big)))]
        k = [r.uniform(.3, 1.) for _ in range(3)]
        from pytracer.reflection import SpecularReflection, FresnelFullReflect
        prims += R.tri(pts, R.Mat([SpecularReflection(LT.spec(k), FresnelFullReflect())]))
        if D >= 2:
            F = [k[i] * PI * (rad / di) ** 2 * g.dot(wi, n) for i in range(3)]
    sc = R.Sc(R.agg(prims, r), [light])
    it = integ(kind, D)
    ren = R.Ren(it)
    t = r.random()
    R0 = s.lobes[0].R
    want = [R0[k] / PI * E[k] * (irr + F[k]) for k in range(3)]
    c.note(integrator=kind, depth=D, mirror=mirror, ball=ctr, rad=rad, E=E, **s.info)
    c.sig(kind, D, mirror, s.info)
    reps = replicates(c, r, ren, it, sc, g.add(s.p, g.mul(s.wo, .01)), g.mul(s.wo, -1.), t, 24, 4)
    if reps is None:
        return
    # the patch itself is a small blocker for light leaving it: it is at most .2 wide
    decide(c, reps, want, [.01 * x for x in want] if mirror else [1e-9] * 3, "mean", integrator=kind, depth=D, parts=(irr, F))
    c.event("%s%s.%d" % (kind, ".mirror" if mirror else "", D))


@task(quick=150, thorough=5000, min_events=300)
def hall(c):
    """two facing mirrors and a lamp-lit matte strip: each level of recursion adds the light it should, and no more than the limit"""
    r = c.rng
    kind = r.choice(["whitted", "direct-all", "direct-one", "path"])
    D = r.choice([1, 2, 3, 4, 6, 9]) if kind != "path" else r.choice([0, 1, 2, 3, 4])
    T, M, desc = g.rigid(r)
    W = lambda v: g.m_pt(M, v)
    q = [r.uniform(.3, .95) for _ in range(3)]
    from pytracer.reflection import SpecularReflection, FresnelFullReflect
    spec = lambda: SpecularReflection(LT.spec(q), FresnelFullReflect())
    rho_ = rho(r) if kind != "path" else [0.] * 3
    big = 100.
    prims = []
    lob = [spec()] if kind == "path" else [spec(), Lambertian(LT.spec(rho_))]
    for z, sg in ((-1., 1.), (1., -1.)):
        prims += R.tri([W([2 * big, 0, z]), W([-big, 2 * big * sg, z]), W([-big, -2 * big * sg, z])], R.Mat(lob))
    I = LT.colour(r)
    lp = [r.uniform(-.5, .5), r.uniform(-.5, .5), r.uniform(-.6, .6)]
    light = L.PointLight(Transform.translate(g.V(W(lp))), LT.spec(I))
    sc = R.Sc(R.agg(prims, r), [light])
    ren = R.Ren(integ(kind, D))
    o = [r.uniform(-.5, .5), r.uniform(-.5, .5), r.uniform(-.9, .9)]
    d = g.nrm([r.uniform(-.4, .4), r.uniform(-.4, .4), r.choice([-1, 1]) * r.uniform(.5, 1)])
    c.note(integrator=kind, depth=D, refl=q, rho=rho_, I=I, lamp=lp, T=desc, o=o, d=d)
    c.sig(kind, D, q, lp, o, d)
    got = radiance(ren, ren.surf_integrator, sc, r, W(o), g.m_vec(M, d))
    levels = D if kind != "path" else D + 1
    want = [0.] * 3
    thr = [1.] * 3
    p, w = o, d
    for _ in range(levels):
        z = 1. if w[2] > 0 else -1.
        t = (z - p[2]) / w[2]
        p = g.add(p, g.mul(w, t))
        dd = g.sub(lp, p)
        D2 = g.dot(dd, dd)
        cs = abs(dd[2]) / math.sqrt(D2)
        want = [want[k] + thr[k] * rho_[k] / PI * I[k] / D2 * cs for k in range(3)]
        thr = [thr[k] * q[k] for k in range(3)]
        w = [w[0], w[1], -w[2]]
    c.check(ren.deepest <= max(1, D), "depth", "recursion went deeper than the limit", got=ren.deepest, want=D)
    if kind == "path":
        c.check(sc.n <= D + 1, "path-length", "a path is longer than its depth bound", got=sc.n - 1, want=D)
    else:
        c.check(ren.deepest == D, "depth-used", "recursion between facing mirrors stopped before the limit", got=ren.deepest, want=D)
    c.close(got, want, "levels", "the light seen in facing mirrors is not the sum over the allowed levels", tol=1e-5 * max(max(want), 1e-6), rel=1., integrator=kind, depth=D)
    c.event("%s.%d" % (kind, D))


@task(quick=200, thorough=6000, min_events=300)
def agree(c):
    """scenes with only direct light: every integrator returns the same closed form; the same random numbers give the same answer"""
    r = c.rng
    s = Surf(r, [B.lambert(r)], tilt=False)
    n = facing(s)
    w = above(r, s, .1) if r.random() < .8 else g.mul(above(r, s, .1), -1.)
    D = math.exp(r.uniform(-.5, 2))
    I = LT.colour(r)
    pos = g.add(s.p, g.mul(w, D))
    light = L.PointLight(Transform.translate(g.V(pos)), LT.spec(I))
    sc = R.Sc(R.agg(s.prims, r), [light])
    want = [s.lobes[0].R[k] / PI * I[k] * max(0., g.dot(w, n)) / (D * D) for k in range(3)]
    # lights that send nothing to the point stand before and behind the one that does
    axis = [-w[1], w[0], 0.] if math.hypot(w[0], w[1]) > 1e-3 else [1., 0., 0.]
    away = L.SpotLight(Transform.translate(g.V(pos)) * Transform.rotate(math.degrees(math.acos(max(-1., min(1., w[2])))), g.V(axis)), LT.spec(LT.colour(r)), 5., 3.)
    dark = r.choice([[], [away], [away, away], [L.PointLight(Transform.translate(g.V(pos)), LT.spec([0.] * 3))]])
    c.note(I=I, pos=pos, dark=len(dark), **s.info)
    c.sig(s.info, I, pos)
    o, d = g.add(s.p, g.mul(s.wo, .01)), g.mul(s.wo, -1.)
    for kind in KINDS:
        dep = r.choice([0, 1, 2, 5, 7])
        it = integ(kind, dep)
        ren = R.Ren(it)
        world = sc
        if dark and kind in ("whitted", "direct-all"):
            k = r.randrange(len(dark) + 1)
            world = R.Sc(sc.aggregate, dark[:k] + [light] + dark[k:])
        got = radiance(ren, it, world, r, o, d)
        c.close(got, want, "agree", "%s does not return the direct light" % kind, tol=1e-6 * max(max(want), 1e-9), rel=1., integrator=kind, depth=dep)
    E = LT.colour(r)
    sky = L.InfiniteAreaLight(Transform(), LT.spec(E), 1)
    sc = R.Sc(R.agg(s.prims, r), [light, sky])
    kind, dep = r.choice(KINDS), r.choice([1, 3, 6])
    it = integ(kind, dep)
    sm = fill(request(it, sc), r, 0.)
    seed = r.random()
    got = []
    for _ in range(2):
        ren = R.Ren(it)
        ray = geo.RayDifferential(g.P(o), g.V(d), 0., math.inf, 0, 0.)
        got.append(LT.rgb(ren.li(sc, ray, sm, Intersection(), R.Rng(seed))[0]))
    c.check(got[0] == got[1], "repeatable", "the same random numbers give another answer", got=got)
    c.event("front" if max(want) > 0 else "back")


# ---------------------------------------------------------------- medium
class Fog(object):
    """a stub volume integrator: a purely absorbing ball"""

    def __init__(self, ctr, rad, sigma):
        self.ctr, self.rad, self.sigma = ctr, rad, sigma
        self.rays = 0

    def length(self, o, d, t0, t1):
        """length inside the ball of o + t d for t in [t0, t1]"""
        q = g.sub(o, self.ctr)
        a, b, cc = g.dot(d, d), g.dot(q, d), g.dot(q, q) - self.rad ** 2
        disc = b * b - a * cc
        if disc <= 0:
            return 0.
        s = math.sqrt(disc)
        lo, hi = max(t0, (-b - s) / a), min(t1, (-b + s) / a)
        return max(0., hi - lo) * math.sqrt(a)

    def T(self, o, d, t0=0., t1=math.inf):
        L = self.length(o, d, t0, t1)
        return [math.exp(-x * L) for x in self.sigma]

    def preprocess(self, *a):
        pass

    def request_samples(self, *a):
        pass

    def transmittance(self, scene, renderer, ray, sample, rng):
        self.rays += 1
        return LT.spec(self.T(g.lst(ray.o), g.lst(ray.d), float(ray.mint), float(ray.maxt)))

    def li(self, scene, renderer, ray, sample, rng):
        return LT.spec([0.] * 3), self.transmittance(scene, renderer, ray, sample, rng)


@task(quick=320, thorough=9000, min_events=400)
def fog(c):
    """a medium attenuates the light along every edge, whichever integrator and whether the edge ends at a lamp, on a surface or in the sky"""
    r = c.rng
    how = r.choice(["lamp", "mirror-sky", "mirror-sky", "mirror-emitter", "glass-sky", "sun", "mirror-lamp"])
    kind = r.choice(["path", "path", "whitted", "direct-all", "direct-one"])
    E = LT.colour(r)
    D = r.choice([2, 3, 5])
    t = r.random()
    matte = how in ("lamp", "sun")
    lobe = B.lambert(r) if matte else (B.glass(r) if how == "glass-sky" else B.mirror(r))
    s = Surf(r, [lobe], tilt=False)
    n = facing(s)
    # the ball of fog holds the patch, or part of what leaves it, or nothing
    frad = math.exp(r.uniform(-1, 1))
    fctr = g.add(s.p, g.mul(g.gunit(r), r.choice([0., r.uniform(0, 2.)])))
    f = Fog(fctr, frad, [r.uniform(.05, 1.) for _ in range(3)])
    o, d = g.add(s.p, g.mul(s.wo, .5)), g.mul(s.wo, -1.)
    prims = list(s.prims)
    c.note(how=how, integrator=kind, depth=D, E=E, fog=[fctr, frad, f.sigma], **s.info)
    first = f.T(o, d, 0., .5)
    if matte:
        w = above(r, s, .1)
        dist = math.exp(r.uniform(-.5, 1.5))
        if how == "lamp":
            lights = [L.PointLight(Transform.translate(g.V(g.add(s.p, g.mul(w, dist)))), LT.spec(E))]
            irr = g.dot(w, n) / dist ** 2
            T = f.T(s.p, w, 0., dist)
        else:
            lights = [L.DistantLight(Transform(), LT.spec(E), g.V(w))]
            irr = g.dot(w, n)
            T = f.T(s.p, w)
        if max(E) * irr < 1e-4:
            return
        want = [first[k] * s.lobes[0].R[k] / PI * E[k] * irr * T[k] for k in range(3)]
    else:
        sc0 = R.Sc(R.agg(prims, r), [])
        s.see(c, sc0)
        lo = g.lst(s.bsdf.w2l(g.V(s.wo)))
        wi, fv = lobe.out(lo)
        if wi is None or max(fv) < 1e-4 or abs(lo[2]) < .05:
            return
        w = g.nrm(g.lst(s.bsdf.l2w(g.V(wi))))
        if abs(wi[2]) < .05:
            return
        thr = [fv[k] * abs(wi[2]) for k in range(3)]
        if how in ("mirror-sky", "glass-sky"):
            lights = [L.InfiniteAreaLight(Transform(), LT.spec(E), 1)]
            T, rad = f.T(s.p, w), E
        else:
            dist = math.exp(r.uniform(0., 1.))
            q = g.add(s.p, g.mul(w, dist))
            u, v, _ = g.onb(w)
            size = 2. * dist
            pts = [g.add(q, g.mul(u, size)), g.add(q, g.add(g.mul(u, -size), g.mul(v, size))), g.add(q, g.add(g.mul(u, -size), g.mul(v, -size)))]
            if how == "mirror-emitter":
                pts = R.facing_tri(pts, s.p)
                tri = R.tri(pts, R.black())
                light = L.DiffuseAreaLight(Transform(), LT.spec(E), 1, tri[0].shape)
                prims = prims + [GeometricPrimitive(tri[0].shape, R.black(), light)]
                lights, rad = [light], E
            else:
                q2 = rho(r)
                prims = prims + R.tri(R.facing_tri(pts, s.p), R.matte(q2))
                lp = g.add(q, g.mul(w, -.4 * dist))
                lights = [L.PointLight(Transform.translate(g.V(lp)), LT.spec(E))]
                T2 = f.T(q, g.mul(w, -1.), 0., .4 * dist)
                rad = [q2[k] / PI * E[k] / (.4 * dist) ** 2 * T2[k] for k in range(3)]
            T = f.T(s.p, w, 0., dist)
        want = [first[k] * thr[k] * T[k] * rad[k] for k in range(3)]
    sc = R.Sc(R.agg(prims, r), lights)
    it = integ(kind, D)
    ren = R.Ren(it)
    ren.vol_integrator = f
    c.sig(how, kind, D, s.info, fctr, frad)
    if how in ("mirror-lamp", "mirror-emitter"):
        # the sheet may stand between the camera and the patch
        isect = Intersection()
        ray = geo.RayDifferential(g.P(o), g.V(d), 0., math.inf, 0, 0.)
        if not sc.intersect(ray, isect) or abs(float(ray.maxt) - .5) > 1e-3:
            return
    got = radiance(ren, it, sc, r, o, d, t)
    if how == "mirror-lamp" and kind == "path":
        # later bounces between sheet and mirror add to it
        c.check(all(got[k] >= want[k] * (1 - 4e-3) - 1e-9 for k in range(3)), "fog-below", "light seen through a medium is too dark", got=got, want=want)
    else:
        c.close(got, want, "fog", "light seen through a medium is not attenuated along every edge exactly once",
                tol=4e-3 * max(max(want), 1e-6), rel=1., integrator=kind)
    c.event("%s.%s.%s" % (how, "path" if kind == "path" else "tree", "clear" if min(T) > .999 else "hazy"))
