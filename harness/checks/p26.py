"""P26 direct lighting"""
import math
import numpy as np
import shutil
import tempfile
import contextlib
from core import tasklist
import gen as g
import bxdfs as B
import shapes as S
import lights as LT
import render as R
import pytracer.geometry as geo
import pytracer.light as L
from pytracer import Spectrum
from pytracer.transform import Transform
from pytracer.light import LightSample
from pytracer.reflection import BSDFSample, BDFType
from pytracer.shape import Sphere, Disk, create_triangle_mesh
from pytracer.aggregate import GeometricPrimitive
from pytracer.integrator import (estimate_direct, uniform_sample_all_lights, uniform_sample_one_light,
                                 compute_light_sampling_cdf, DirectLightingIntegrator, WhittedIntegrator, LightStrategy)
from checks.p24 import gridded, rigid_shape

TASKS, task = tasklist()
RULE = ("surfaces (matte, rough, glossy, translucent; flat and tilted shading normals) x lights of every type x occluders x media; "
        "delta lights compared sample by sample with closed forms, area and environment lights as means of stratified replicates "
        "against quadrature; distinct by surface, light and occluder")
ASSUMPTIONS = ["means are decided at 9 standard errors of 24 stratified replicates plus the quadrature error",
               "occluders closer than the intersection tolerance to a segment are too close to call and skipped"]
PI = math.pi
FLAGS = BDFType(BDFType.ALL & ~BDFType.SPECULAR)


@contextlib.contextmanager
def folder():
    d = tempfile.mkdtemp(prefix="p26-")
    try:
        yield d
    finally:
        shutil.rmtree(d)


class Surf(object):
    """a small flat patch at a random place with given lobes, seen from a direction"""

    def __init__(self, r, lobes, tilt=True, size=.2, ideal=False):
        self.lobes = lobes
        # ideal lobes next to the others: they take part in nothing that is estimated here
        self.ideal = [r.choice([B.mirror, B.mirror, B.glass])(r) for _ in range(r.choice([0, 1, 1, 2]))] if ideal else []
        self.order = lobes + self.ideal
        if self.ideal:
            r.shuffle(self.order)
        self.T, self.M, self.desc = g.rigid(r)
        self.ng = g.nrm(g.m_vec(self.M, [0., 0., 1.]))
        self.ns = self.ng
        self.size = size
        self.n = None
        self.ro = r.random() < .5
        self.kind = "disk" if r.random() < .5 else "triangle"
        if self.kind == "triangle" and tilt and r.random() < .6:
            self.kind = "tilted"
            self.n = g.nrm([r.gauss(0, .25), r.gauss(0, .25), 1.])
            self.ns = g.nrm(g.m_vec(self.M, self.n))
        self.build()
        self.p = g.m_pt(self.M, [r.uniform(-.3, .3) * size, r.uniform(-.3, .3) * size, 0.])
        wl = B.direction(r, .15)
        self.wo = g.nrm(g.m_vec(self.M, wl))
        self.dist = r.uniform(.5, 3)
        self.info = dict(surface=self.kind, place=self.desc, lobes=[l.desc for l in self.order], p=self.p, wo=self.wo)

    def build(self):
        if self.kind == "disk":
            sh = [Disk(self.T, self.T.inverse(), self.ro, 0., self.size, 0., 360.)]
        else:
            pts = [[self.size * math.cos(a), self.size * math.sin(a), 0.] for a in (.3, .3 + 2 * PI / 3, .3 + 4 * PI / 3)]
            prm = {'indices': [0, 1, 2], 'P': [g.P(q) for q in pts]}
            if self.n is not None:
                prm['N'] = [g.N(self.n)] * 3
            sh = list(create_triangle_mesh(self.T, self.T.inverse(), False, prm).refine())
        mat = R.Mat([l.obj for l in self.order])
        self.prims = [GeometricPrimitive(x, mat, None) for x in sh]

    def move(self, mv):
        self.T = Transform.translate(g.V(mv)) * self.T
        self.M = g.mm(g.m_translate(mv), self.M)
        self.p = g.add(self.p, mv)
        self.info.update(p=self.p, moved=mv)
        self.build()

    def ray(self, time=0.):
        # the eye is close enough never to be behind an occluder
        return geo.RayDifferential(g.P(g.add(self.p, g.mul(self.wo, .01))), g.V(g.mul(self.wo, -1.)), 0., math.inf, 0, time)

    def see(self, c, sc, time=0.):
        isect = R.Intersection()
        ray = self.ray(time)
        c.require(sc.intersect(ray, isect), "hit", "the surface in front of the eye is not hit")
        self.bsdf = isect.get_bsdf(ray)
        self.isect, self.eye = isect, ray
        return self

    def f(self, wi):
        """reference value for the unit direction wi, or None if too close to an edge"""
        b = self.bsdf
        a = g.dot(self.ng, wi) * g.dot(self.ng, self.wo)
        if abs(a) < 1e-7:
            return None
        lo, li = g.lst(b.w2l(g.V(self.wo))), g.lst(b.w2l(g.V(wi)))
        out = [0.] * 3
        for l in self.lobes:
            if l.trans == (a < 0):
                if abs(li[2]) < 1e-4 or abs(lo[2]) < 1e-4:
                    return None
                if g.ln(g.add(lo, B.switch(li) if l.trans else li)) < 1e-3:
                    return None
                v = l.f(lo, li)
                out = g.add(out, v)
        return out


def surf_lobes(r, matte_only=False):
    if matte_only or r.random() < .45:
        return [B.lambert(r)]
    ls = []
    for _ in range(r.choice([1, 1, 2])):
        b = r.choice([B.lambert, B.oren, lambda q: B.micro(q, 30.), lambda q: B.blend(q, 30.)])(r)
        if r.random() < .3:
            b = B.to_btdf(b)
        ls.append(b)
    return ls


class Ball(object):
    """a spherical occluder"""

    def __init__(self, ctr, rad):
        self.ctr, self.rad = ctr, rad
        T = Transform.translate(g.V(ctr))
        self.prim = GeometricPrimitive(Sphere(T, T.inverse(), False, rad, -rad, rad, 360.), R.black(), None)

    def blocks(self, p, w, tmax):
        """(blocks the open segment p + (0,tmax) w, too close to call)"""
        o = g.sub(self.ctr, p)
        b = g.dot(o, w)
        q2 = g.dot(o, o) - b * b
        m = self.rad * self.rad - q2
        if abs(m) < 1e-3 * self.rad * self.rad:
            return False, True
        if m < 0:
            return False, False
        s = math.sqrt(m)
        t0, t1 = b - s, b + s
        near = any(abs(t) < 1e-3 or abs(t - tmax) < 1e-3 * (1 + tmax) for t in (t0, t1))
        return (0 < t0 < tmax) or (0 < t1 < tmax), near


def balls(r, p, ends):
    """random occluders: on a segment, beyond it, beside it, behind the surface"""
    out = []
    for _ in range(r.choice([0, 0, 1, 1, 2])):
        e = r.choice(ends)
        d = g.sub(e, p)
        D = g.ln(d)
        k = r.choice(["on", "on", "beyond", "behind", "beside"])
        t = {"on": r.uniform(.3, .8), "beyond": r.uniform(1.3, 2.), "behind": -r.uniform(.3, 1.), "beside": r.uniform(.2, .8)}[k]
        ctr = g.add(p, g.mul(d, t))
        rad = D * r.uniform(.02, .12)
        if k == "beside":
            ctr = g.add(ctr, g.mul(g.gunit(r), rad * r.uniform(.8, 3)))
        if g.ln(g.sub(ctr, p)) < rad + .3 or g.ln(g.sub(ctr, e)) < rad * 1.05:
            continue
        out.append(Ball(ctr, rad))
    return out


def shade(c, r, s, lit, occ, sigma):
    """closed form for a delta light: (value, length) or None when too close to call"""
    if lit.kind == "distant":
        w, D, E = lit.wi, math.inf, lit.I
    else:
        d = g.sub(lit.pos, s.p)
        D = g.ln(d)
        w = g.mul(d, 1. / D)
        pr, edge = lit.profile(g.mul(w, -1.))
        if edge:
            return None
        E = [lit.I[k] * pr[k] / (D * D) for k in range(3)]
    if min(abs(g.dot(w, s.ng)), abs(g.dot(w, s.ns))) < 1e-3:
        return None
    f = s.f(w)
    if f is None:
        return None
    if 0 < max(E) < 1e-5:
        c.event("dim")
    if 0 < max(f) < 1e-9:
        # rounding in a steep lobe's tail
        c.event("tail")
        return None
    for b in occ:
        hit, near = b.blocks(s.p, w, D)
        if near:
            return None
        if hit:
            c.event("blocked")
            return [0.] * 3
    tr = 1. if sigma == 0. else math.exp(-sigma * D)
    k = abs(g.dot(s.ns, w)) * tr
    v = [f[i] * E[i] * k for i in range(3)]
    c.event("lit" if max(v) > 0 else "dark")
    return v


def smp(r):
    return LightSample(r.random(), r.random(), r.random()), BSDFSample(r.random(), r.random(), r.random())


def delta_scene(c, nl, matte_only=False):
    r = c.rng
    s = Surf(r, surf_lobes(r, matte_only))
    with folder() as fd:
        lits = [LT.Lit(r, r.choice(["point", "point", "spot", "projection", "gonio", "distant"]), fd) for _ in range(nl)]
    # most lights in front of the surface
    lits = [x for x in lits if x.kind == "distant" or g.ln(g.sub(x.pos, s.p)) > .5] or lits[:1]
    ends = [x.pos if x.kind != "distant" else g.add(s.p, g.mul(x.wi, 8.)) for x in lits]
    occ = balls(r, s.p, ends)
    sigma = 0. if r.random() < .7 else math.exp(r.uniform(-4, -1))
    sc = R.Sc(R.agg(s.prims + [b.prim for b in occ], r), [x.light for x in lits])
    t = r.choice([0., r.random(), 7.25])
    c.note(lights=[x.info for x in lits], balls=[(b.ctr, b.rad) for b in occ], sigma=sigma, time=t, **s.info)
    c.sig(s.info, [x.info for x in lits], len(occ), sigma)
    return r, s, lits, occ, sigma, sc, t


def near(got, want, sigma):
    got = LT.rgb(got)
    return all(math.isfinite(x) for x in got) and all(abs(a - b) <= 1e-6 * max(want) + 1e-300 + 1e-3 * min(1., sigma * 10) * b + (1e-9 if b == 0 and max(want) > 0 else 0)
                                                     for a, b in zip(got, want))


@task(quick=900, thorough=30000, min_events=3000)
def delta(c):
    """every sample of a delta light is the closed form"""
    r, s, lits, occ, sigma, sc, t = delta_scene(c, 1)
    lit = lits[0]
    s.see(c, sc, t)
    want = shade(c, r, s, lit, occ, sigma)
    if want is None:
        return
    ren = R.Ren(None, sigma)
    b = s.bsdf
    before = (g.lst(b.dgs.p), g.lst(b.dgs.nn), LT.rgb(lit.light.power(sc)))
    for _ in range(3):
        sc.times = []
        a1, a2 = smp(r)
        v = estimate_direct(sc, ren, lit.light, b.dgs.p, b.dgs.nn, g.V(s.wo), s.isect.rEps, t, b, a1, a2, FLAGS, R.Rng(r.random()))
        c.check(near(v, want, sigma), "closed-form", "estimate is not f * arriving light * cosine", got=LT.rgb(v), want=want)
        c.check(all(x == t for x in sc.times), "time", "shadow rays must be at the time of the shaded point", got=sc.times, want=t)
    c.check(before == (g.lst(b.dgs.p), g.lst(b.dgs.nn), LT.rgb(lit.light.power(sc))), "unmodified", "shading point, normal or light changed")
    c.event(lit.kind)


def sampled(integ, sc, r):
    """run request_samples as a renderer would and fill"""
    sm = R.Smp()
    integ.request_samples(None, sm, sc)
    return sm.fill(r)


@task(quick=350, thorough=12000, min_events=1000)
def many(c):
    """several delta lights: all = sum, one = n times the chosen one; integrators agree"""
    r, s, lits, occ, sigma, sc, t = delta_scene(c, c.rng.choice([1, 2, 3, 5]))
    s.see(c, sc, t)
    each = [shade(c, r, s, x, occ, sigma) for x in lits]
    if any(e is None for e in each):
        return
    ren = R.Ren(None, sigma)
    b = s.bsdf
    tot = [sum(e[k] for e in each) for k in range(3)]
    n = len(lits)
    args = (sc, ren, b.dgs.p, b.dgs.nn, g.V(s.wo), s.isect.rEps, t, b)
    v = uniform_sample_all_lights(*args, None, None, None, rng=R.Rng(r.random()))
    c.check(near(v, tot, sigma), "all", "sampling all lights is not the sum over lights", got=LT.rgb(v), want=tot, each=each)
    # one light, chosen by the generator's first number
    for _ in range(2):
        seed = r.random()
        u = R.Rng(seed)()
        v = uniform_sample_one_light(*args, None, rng=R.Rng(seed))
        # whichever light was chosen, the estimate is n times that light's
        ok = [i for i in range(n) if near(v, [n * x for x in each[i]], sigma)]
        c.check(ok, "one", "sampling one light is not n times one of the lights", got=LT.rgb(v), each=each)
    di = DirectLightingIntegrator(LightStrategy.SAMPLE_ALL_UNIFORM, 1)
    sm = sampled(di, sc, r)
    v = di.li(sc, ren, s.eye, s.isect, sm, R.Rng(r.random()))
    c.check(near(v, tot, sigma), "direct-all", "direct lighting of all lights is not the sum over lights", got=LT.rgb(v), want=tot, each=each)
    do = DirectLightingIntegrator(LightStrategy.SAMPLE_ONE_UNIFORM, 1)
    # over equally spaced light numbers the one-light estimates average to the whole
    acc = [0.] * 3
    sm = sampled(do, sc, r)
    j = [i for i, q in enumerate(sm.n1D)]
    off = r.random()
    for k in range(n):
        for i in j:
            if i == do.light_num_offset:
                sm.oneD[i][:] = (k + off) / n
        v = LT.rgb(do.li(sc, ren, s.eye, s.isect, sm, R.Rng(r.random())))
        acc = g.add(acc, g.mul(v, 1. / n))
    c.check(near(acc, tot, sigma), "direct-one", "one-light estimates over all light numbers do not average to the sum", got=acc, want=tot, each=each)
    w = WhittedIntegrator(1).li(sc, ren, s.eye, s.isect, None, R.Rng(r.random()))
    c.check(near(w, tot, sigma), "whitted", "Whitted direct light is not the sum over lights", got=LT.rgb(w), want=tot, each=each)
    c.event("n%d" % n)


# ---------------------------------------------------------------- means
def strat(r, n):
    pts = [((i + r.random()) / n, (j + r.random()) / n) for i in range(n) for j in range(n)]
    r.shuffle(pts)
    return pts


def lin(r, n):
    xs = [(i + r.random()) / n for i in range(n)]
    r.shuffle(xs)
    return xs


def replicates(c, r, s, sc, ren, light, t, reps=24, n=4):
    """means of stratified replicates, three channels; every sample finite and non-negative"""
    b = s.bsdf
    out = []
    for _ in range(reps):
        acc = [0.] * 3
        A, C, Q = strat(r, n), strat(r, n), lin(r, n * n)
        Q2 = lin(r, n * n)
        for k in range(n * n):
            v = LT.rgb(estimate_direct(sc, ren, light, b.dgs.p, b.dgs.nn, g.V(s.wo), s.isect.rEps, t, b,
                                       LightSample(A[k][0], A[k][1], Q[k]), BSDFSample(C[k][0], C[k][1], Q2[k]), FLAGS, R.Rng(r.random())))
            if not all(math.isfinite(x) and x >= 0. for x in v):
                c.check(False, "valid", "an estimate is not finite and non-negative", got=v)
                return None
            acc = g.add(acc, v)
        out.append(g.mul(acc, 1. / (n * n)))
    c.check(True, "valid")
    c.check(all(x == t for x in sc.times), "time", "shadow and scattering rays must be at the time of the shaded point",
            got=sorted(set(sc.times))[:4], want=t)
    return out


def decide(c, reps, want, err, mech, z=9., **wit):
    """want, err: three channels"""
    n = len(reps)
    for k in range(3):
        xs = [q[k] for q in reps]
        m = sum(xs) / n
        se = math.sqrt(sum((x - m) ** 2 for x in xs) / (n - 1) / n)
        if not c.check(abs(m - want[k]) <= z * se + err[k] + 2e-3 * abs(want[k]) + 1e-12, mech,
                       "mean of direct lighting estimates is not the lighting integral", channel=k, got=m, want=want[k], se=se, err=err[k], **wit):
            return


def lambert_polygon(pts, p, n):
    """irradiance form factor of a polygon wholly above the plane at p: (1/2pi) sum angle * (gamma . n), times pi gives E for unit radiance"""
    tot = 0.
    v = [g.nrm(g.sub(q, p)) for q in pts]
    for i in range(len(v)):
        a, b = v[i], v[(i + 1) % len(v)]
        x = g.cross(a, b)
        lx = g.ln(x)
        if lx < 1e-14:
            continue
        th = math.atan2(lx, g.dot(a, b))
        tot += th * g.dot(g.mul(x, 1. / lx), n)
    return abs(tot) / 2.


def facing(s):
    """the shading side of the surface: normal towards the eye"""
    return s.ng if g.dot(s.ng, s.wo) > 0 else g.mul(s.ng, -1.)


def above(r, s, lo=.2):
    """a direction above the surface on the eye's side"""
    n = facing(s)
    while True:
        w = g.gunit(r)
        if g.dot(w, n) < 0:
            w = g.sub(w, g.mul(n, 2 * g.dot(w, n)))
        if g.dot(w, n) > lo:
            return w


@task(quick=20, thorough=1500, min_events=50)
def area_closed(c):
    """a matte patch under a triangle or a sphere light: closed forms"""
    r = c.rng
    s = Surf(r, [B.lambert(r)], tilt=False, ideal=True)
    n = facing(s)
    E = LT.colour(r)
    kind = r.choice(["triangle", "sphere"])
    w = above(r, s)
    D = math.exp(r.uniform(0, 2))
    ctr = g.add(s.p, g.mul(w, D))
    T = Transform()
    if kind == "triangle":
        while True:
            pts = [g.add(ctr, g.mul(g.gunit(r), D * r.uniform(.2, 1.2))) for _ in range(3)]
            nn = g.cross(g.sub(pts[1], pts[0]), g.sub(pts[2], pts[0]))
            if min(g.dot(g.sub(q, s.p), n) for q in pts) > .1 * D and abs(g.dot(g.nrm(nn), g.nrm(g.sub(s.p, pts[0])))) > .1:
                break
        pts = R.facing_tri(pts, s.p)
        back = r.random() < .15
        if back:
            pts = [pts[0], pts[2], pts[1]]
        mesh = create_triangle_mesh(T, T, False, {'indices': [0, 1, 2], 'P': [g.P(q) for q in pts]})
        light = L.DiffuseAreaLight(T, LT.spec(E), 1, mesh)
        sh = list(mesh.refine())
        irr = 0. if back else lambert_polygon(pts, s.p, n)
        geom = dict(tri=pts, back=back)
    else:
        rad = D * r.uniform(.05, .19)
        T, M, d = g.rigid(r)
        T = Transform.translate(g.V(ctr)) * T
        T = Transform.translate(g.V(g.sub(ctr, g.lst(T(g.P([0., 0., 0.])))))) * T
        sh = [Sphere(T, T.inverse(), False, rad, -rad, rad, 360.)]
        light = L.DiffuseAreaLight(T, LT.spec(E), 1, sh[0])
        irr = PI * (rad / D) ** 2 * g.dot(w, n)
        if g.dot(w, n) * D < rad * 1.05:
            return
        geom = dict(sphere=ctr, rad=rad)
    # with one light: fully hidden, or an occluder elsewhere
    occ = []
    k = r.random()
    if k < .15:
        # a wall close to the surface hides everything on this side
        q = g.add(s.p, g.mul(n, .02))
        u, v, _ = g.onb(n)
        big = 200.
        wall = [g.add(q, g.mul(u, big)), g.add(q, g.add(g.mul(u, -big), g.mul(v, 2 * big))), g.add(q, g.add(g.mul(u, -big), g.mul(v, -2 * big)))]
        occ = R.tri(wall, R.black())
        irr = 0.
        geom['wall'] = True
    elif k < .4:
        occ = [Ball(g.add(s.p, g.mul(w, 2.2 * D)), .1 * D).prim, Ball(g.sub(s.p, g.mul(n, D)), .3 * D).prim]
    prims = s.prims + occ + [GeometricPrimitive(x, R.black(), light) for x in sh]
    sc = R.Sc(R.agg(prims, r), [light])
    t = r.random()
    sigma = 0.
    c.note(light=kind, E=E, **dict(geom, **s.info))
    c.sig(kind, s.info, geom, E)
    s.see(c, sc, t)
    sc.times = []
    reps = replicates(c, r, s, sc, R.Ren(None), light, t)
    if reps is None:
        return
    want = [s.lobes[0].R[k] / PI * E[k] * irr for k in range(3)]
    if irr == 0.:
        c.check(all(max(q) == 0. for q in reps), "hidden", "a hidden light or its dark side contributes", got=max(max(q) for q in reps))
    decide(c, reps, want, [1e-9] * 3, "mean", kind=kind)
    c.event(kind + (".hidden" if irr == 0 else "") + (".ideal" if s.ideal else ""))


def quad_area(s, pts, area, E, occ, sigma):
    """quadrature over a light's points: three channels, and the part scattered in steep tails"""
    tot = [0.] * 3
    dim = [0.] * 3
    for q, nn in pts:
        d = g.sub(q, s.p)
        D = g.ln(d)
        w = g.mul(d, 1. / D)
        cs = -g.dot(nn, w)
        if cs <= 0:
            continue
        if any(b.blocks(s.p, w, D)[0] for b in occ):
            continue
        f = s.f(w)
        if f is None:
            continue
        k = cs / (D * D) * abs(g.dot(s.ns, w)) * math.exp(-sigma * D)
        tot = [tot[i] + f[i] * k * E[i] for i in range(3)]
        if max(f) < 1e-9:
            dim = [dim[i] + f[i] * k * E[i] for i in range(3)]
    return [x * area / len(pts) for x in tot], [x * area / len(pts) for x in dim]


@task(quick=24, thorough=1500, min_events=60)
def area_quad(c):
    """any surface under any area light, partly occluded, in a medium: quadrature"""
    r = c.rng
    s = Surf(r, surf_lobes(r), ideal=True)
    ref = rigid_shape(r, ("triangle", "sphere", "disk", "disk"))
    if ref.kind == "sphere" and ref.ro:
        return      # inside-out spheres hide themselves: covered for the sampler alone
    # bring the light near the surface
    n = facing(s)
    side = n if r.random() < .8 or not any(l.trans for l in s.lobes) else g.mul(n, -1.)
    w = g.gunit(r)
    if g.dot(w, side) < 0:
        w = g.sub(w, g.mul(side, 2 * g.dot(w, side)))
    size = ref.size * ref.scale
    ctr0 = g.m_pt(ref.M, [0., 0., 0.]) if ref.kind != "triangle" else ref.world(1 / 3., 1 / 3.)
    # move the surface instead of the light
    p = g.sub(ctr0, g.mul(w, size * r.uniform(1.6, 4)))
    s.move(g.sub(p, s.p))
    E = LT.colour(r)
    light = L.DiffuseAreaLight(ref.o2w, LT.spec(E), 1, ref.shape)
    occ = balls(r, s.p, [x[0] for x in r.sample(gridded(ref, 6), 3)]) if r.random() < .5 else []
    # occluders must not touch the light or enclose the eye
    occ = [b for b in occ if g.ln(g.sub(b.ctr, s.p)) > b.rad + .35 and all(g.ln(g.sub(b.ctr, q)) > b.rad * 1.02 for q, _ in gridded(ref, 8))]
    sigma = 0. if r.random() < .7 else math.exp(r.uniform(-4, -1)) / size
    sc = R.Sc(R.agg(s.prims + [b.prim for b in occ] + [GeometricPrimitive(ref.shape, R.black(), light)], r), [light])
    t = r.random()
    c.note(E=E, balls=[(b.ctr, b.rad) for b in occ], sigma=sigma, light=ref.info, **s.info)
    c.sig(s.info, ref.info, len(occ), sigma)
    s.see(c, sc, t)
    sc.times = []
    a, dim = quad_area(s, gridded(ref, 40), ref.area(), E, occ, sigma)
    a2, _ = quad_area(s, gridded(ref, 23), ref.area(), E, occ, sigma)
    reps = replicates(c, r, s, sc, R.Ren(None, sigma), light, t)
    if reps is None:
        return
    err = [2.5 * abs(x - y) + .004 * x + z for x, y, z in zip(a, a2, dim)]
    if occ:
        err = [e + .03 * x for e, x in zip(err, a)]
    decide(c, reps, a, err, "mean")
    c.event(ref.kind + (".occluded" if occ else "") + (".medium" if sigma else ""))
    c.event("positive" if max(a) > 0 else "zero")


@task(quick=20, thorough=1200, min_events=50)
def environment(c):
    """any surface under an environment: constant gives rho * radiance exactly in the mean; a ball takes away its share"""
    r = c.rng
    const = r.random() < .5
    s = Surf(r, surf_lobes(r, const and r.random() < .7), tilt=False, ideal=True)
    with folder() as fd:
        while True:
            lit = LT.Lit(r, "infinite", fd)
            if const == (lit.imgkind in ("const", "constant-colour")):
                break
    n = facing(s)
    occ = []
    if r.random() < .4:
        w = above(r, s, .5)
        D = r.uniform(1, 4)
        occ = [Ball(g.add(s.p, g.mul(w, D)), D * r.uniform(.1, .4))]
    sc = R.Sc(R.agg(s.prims + [b.prim for b in occ], r), [lit.light])
    t = r.random()
    c.note(balls=[(b.ctr, b.rad) for b in occ], light=lit.info, **s.info)
    c.sig(s.info, lit.info, len(occ))
    s.see(c, sc, t)
    sc.times = []

    def quad(nt, nphi):
        """over world directions: z = cos theta uniform in each map row band"""
        tot, dim = [0.] * 3, [0.] * 3
        for i in range(nt):
            z = 1 - 2 * (i + .5) / nt
            sn = math.sqrt(1 - z * z)
            for j in range(nphi):
                ph = 2 * PI * (j + .5) / nphi
                w = g.nrm(g.m_vec(lit.M, [sn * math.cos(ph), sn * math.sin(ph), z]))
                f = s.f(w)
                if f is None or max(f) == 0.:
                    continue
                if any(b.blocks(s.p, w, math.inf)[0] for b in occ):
                    continue
                e = lit.profile(w)[0]
                k = abs(g.dot(s.ns, w))
                tot = [tot[x] + f[x] * e[x] * k for x in range(3)]
                if max(f) < 1e-9:
                    dim = [dim[x] + f[x] * e[x] * k for x in range(3)]
        return [x * 4 * PI / (nt * nphi) for x in tot], [x * 4 * PI / (nt * nphi) for x in dim]
    matte = const and len(s.lobes) == 1 and s.lobes[0].name == "lambert"
    if matte:
        e = lit.profile([0., 0., 1.])[0]
        frac = 1.
        for b in occ:
            d = g.sub(b.ctr, s.p)
            frac = 1. - (b.rad ** 2 / g.dot(d, d)) * g.dot(g.nrm(d), n)
            if g.dot(d, n) < b.rad * 1.01:
                return
        want = [s.lobes[0].R[k] * e[k] * frac for k in range(3)]
        err = [1e-9] * 3
    else:
        want, dim = quad(96, 96)
        w2, _ = quad(59, 61)
        err = [2.5 * abs(x - y) + (.03 if occ else .012) * x + z for x, y, z in zip(want, w2, dim)]
    reps = replicates(c, r, s, sc, R.Ren(None), lit.light, t)
    if reps is None:
        return
    decide(c, reps, want, err, "mean")
    c.event(("matte-constant" if matte else "quadrature") + (".ball" if occ else ""))


# ---------------------------------------------------------------- several samples per light, mixtures
@task(quick=400, thorough=8000, min_events=600)
def offsets(c):
    """with given samples the estimate is the plain mean over each light's own samples"""
    r = c.rng
    s = Surf(r, surf_lobes(r), tilt=False)
    lights, prims, infos = [], list(s.prims), []
    with folder() as fd:
        for _ in range(r.choice([1, 2, 3])):
            k = r.choice(["area", "area", "point", "infinite", "distant"])
            ns = r.choice([1, 2, 3, 4])
            if k == "area":
                w = above(r, s)
                D = r.uniform(1, 4)
                wide = r.choice([.4, .4, .9])
                pts = R.facing_tri([g.add(s.p, g.mul(g.nrm(g.add(w, g.mul(g.gunit(r), wide))), D)) for _ in range(3)], s.p)
                # part of the light is hidden, so that some samples are dark and others are not
                e = [r.random() for _ in range(3)]
                occ = [x for x in balls(r, s.p, pts + [[sum(e[i] * pts[i][k_] for i in range(3)) / sum(e) for k_ in range(3)]])
                       if g.ln(g.sub(x.ctr, s.p)) > x.rad + .35]
                prims += [x.prim for x in occ]
                if occ:
                    c.event("partly-hidden")
                T = Transform()
                mesh = create_triangle_mesh(T, T, False, {'indices': [0, 1, 2], 'P': [g.P(q) for q in pts]})
                E = LT.colour(r)
                li = L.DiffuseAreaLight(T, LT.spec(E), ns, mesh)
                prims += [GeometricPrimitive(x, R.black(), li) for x in mesh.refine()]
                infos.append(dict(tri=pts, E=E, ns=ns))
            else:
                lit = LT.Lit(r, k, fd)
                li = lit.light
                ns = li.ns
                infos.append(lit.info)
            lights.append(li)
    sc = R.Sc(R.agg(prims, r), lights)
    ren = R.Ren(None)
    t = r.random()
    c.note(lights=infos, **s.info)
    c.sig(s.info, infos)
    s.see(c, sc, t)
    b = s.bsdf
    di = DirectLightingIntegrator(LightStrategy.SAMPLE_ALL_UNIFORM, 1)
    sm = sampled(di, sc, r)
    c.check(len(sm.n2D) == 2 * len(lights), "requests", "two sample streams per light", got=len(sm.n2D))
    c.check(sorted(sm.n2D) == sorted(2 * [x.ns for x in lights]), "requests-size", "each light asks for its own number of samples", got=sm.n2D, want=[x.ns for x in lights])
    got = LT.rgb(uniform_sample_all_lights(sc, ren, b.dgs.p, b.dgs.nn, g.V(s.wo), s.isect.rEps, t, b, sm,
                                           di.light_sample_offsets, di.bsdf_sample_offsets, R.Rng(1)))
    want = [0.] * 3
    for i, li in enumerate(lights):
        acc, dark = [0.] * 3, set()
        for j in range(li.ns):
            v = estimate_direct(sc, ren, li, b.dgs.p, b.dgs.nn, g.V(s.wo), s.isect.rEps, t, b,
                                LightSample.from_sample(sm, di.light_sample_offsets[i], j), BSDFSample.from_sample(sm, di.bsdf_sample_offsets[i], j), FLAGS, R.Rng(1))
            acc = g.add(acc, LT.rgb(v))
            dark.add(max(LT.rgb(v)) == 0.)
        if len(dark) == 2:
            c.event("dark-and-lit-samples")
        want = g.add(want, g.mul(acc, 1. / li.ns))
    c.close(got, want, "all-mean", "sampling all lights is not the sum of each light's mean", tol=1e-9)
    li_ = LT.rgb(di.li(sc, ren, s.eye, s.isect, sm, R.Rng(1)))
    c.close(li_, want, "integrator", "the direct lighting integrator does not return that estimate", tol=1e-9)
    # the samples matter: every number handed to the light or the surface is in [0,1)
    do = DirectLightingIntegrator(LightStrategy.SAMPLE_ONE_UNIFORM, 1)
    sm1 = sampled(do, sc, r)
    u = sm1.oneD[do.light_num_offset][0]
    k = min(len(lights) - 1, int(u * len(lights)))
    v = estimate_direct(sc, ren, lights[k], b.dgs.p, b.dgs.nn, g.V(s.wo), s.isect.rEps, t, b,
                        LightSample.from_sample(sm1, do.light_sample_offsets[0], 0), BSDFSample.from_sample(sm1, do.bsdf_sample_offsets[0], 0), FLAGS, R.Rng(1))
    got = LT.rgb(do.li(sc, ren, s.eye, s.isect, sm1, R.Rng(1)))
    c.close(got, g.mul(LT.rgb(v), len(lights)), "one", "the one-light estimate is not n times the chosen light's", tol=1e-9, chosen=k, u=u)
    c.check(all(math.isfinite(x) and x >= 0 for x in got + li_), "valid", "an estimate is not finite and non-negative", got=(got, li_))
    c.event("n%d" % len(lights))


@task(quick=40, thorough=1500, min_events=80)
def one_light_mean(c):
    """sampling one of several lights is unbiased for the sum"""
    r = c.rng
    s = Surf(r, [B.lambert(r)], tilt=False)
    n = facing(s)
    lights, prims, want = [], list(s.prims), [0.] * 3
    infos = []
    k = r.choice([2, 3, 4])
    with folder() as fd:
        for _ in range(k):
            if r.random() < .5:
                E = LT.colour(r)
                w = above(r, s, .3)
                D = r.uniform(2, 6)
                q = g.add(s.p, g.mul(w, D))
                li = L.PointLight(Transform.translate(g.V(q)), LT.spec(E))
                want = [want[x] + s.lobes[0].R[x] / PI * E[x] * g.dot(w, n) / (D * D) for x in range(3)]
                infos.append(("point", q, E))
            else:
                E = LT.colour(r, 3.)
                li = L.InfiniteAreaLight(Transform(), LT.spec(E), 1)
                want = [want[x] + s.lobes[0].R[x] * E[x] for x in range(3)]
                infos.append(("constant", E))
            lights.append(li)
    sc = R.Sc(R.agg(prims, r), lights)
    ren = R.Ren(None)
    c.note(lights=infos, **s.info)
    c.sig(s.info, infos)
    s.see(c, sc)
    b = s.bsdf
    reps = []
    use = r.random() < .5
    do = DirectLightingIntegrator(LightStrategy.SAMPLE_ONE_UNIFORM, 1)
    for _ in range(24):
        acc = [0.] * 3
        M = 5 * k
        U = lin(r, M)
        for i in range(M):
            if use:
                sm = sampled(do, sc, r)
                sm.oneD[do.light_num_offset][:] = U[i]
                v = do.li(sc, ren, s.eye, s.isect, sm, R.Rng(r.random()))
            else:
                v = uniform_sample_one_light(sc, ren, b.dgs.p, b.dgs.nn, g.V(s.wo), s.isect.rEps, 0., b, None, rng=R.Rng(r.random()))
            acc = g.add(acc, LT.rgb(v))
        reps.append(g.mul(acc, 1. / M))
    decide(c, reps, want, [1e-9] * 3, "mean", strata=use)
    c.event("n%d" % k)


class Plain(object):
    def __init__(self, light):
        self.light = light


@task(quick=200, thorough=6000, min_events=200)
def by_power(c):
    """the light choice distribution follows power"""
    r = c.rng
    with folder() as fd:
        lits = [LT.Lit(r, r.choice(["point", "spot", "distant", "infinite", "gonio", "projection"]), fd) for _ in range(r.choice([1, 2, 3, 5]))]
    s = Surf(r, [B.lambert(r)])
    sc = R.Sc(R.agg(s.prims, r), [x.light for x in lits])
    c.note(lights=[x.info for x in lits])
    c.sig([x.info for x in lits])
    if r.random() < .5:
        # very dim, very bright and dark lamps among or instead of them
        k = 10. ** r.uniform(-9, 6)
        more = [[r.choice([0., k, k * r.random(), k * r.random()])] * 3 for _ in range(r.choice([1, 2, 3]))]
        lamps = [L.PointLight(Transform.translate(g.V(g.vec3(r))), Spectrum.from_rgb(np.array(v))) for v in more]
        lits = ([] if r.random() < .6 else lits) + [Plain(x) for x in lamps]
        sc = R.Sc(R.agg(s.prims, r), [x.light for x in lits])
        c.note(dim=more, n=len(lits))
        c.event("dim")
    pw = [LT.lum(LT.rgb(x.light.power(sc))) for x in lits]
    tot = sum(pw)
    if tot <= 0:
        return
    d = compute_light_sampling_cdf(sc)
    n = len(pw)
    u = r.random()
    k, pdf = d.sample_dis(u)
    acc = 0.
    for i in range(n):
        if u < (acc + pw[i]) / tot - 1e-9 and u > acc / tot + 1e-9:
            c.check(int(k) == i, "chosen", "the number u does not choose the light whose share of the cumulative power holds it", got=int(k), want=i, u=u, pw=pw)
            c.close(float(pdf), pw[i] / tot, "probability", "probability of the chosen light is not its share of the power", tol=1e-6)
        acc += pw[i]
    c.event("n%d" % n)
