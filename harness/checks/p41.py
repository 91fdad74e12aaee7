"""P41 ray differentials through specular bounces"""
import math
from core import tasklist
import gen as g
import shapes as S
import render as R_
from checks.p10 import rigid_or_mirror
import numpy as np
import pytracer.geometry as geo
from pytracer import Spectrum
from pytracer.aggregate import GeometricPrimitive, Intersection
from pytracer.integrator.utility import specular_reflect, specular_transmit
from pytracer.material import GlassMaterial, MirrorMaterial
from pytracer.reflection import BDFType, BSDFSample, SpecularReflection, SpecularTransmission, FresnelFullReflect, FresnelDielectric
from pytracer.texture import ConstantTexture

TASKS, task = tasklist()
RULE = ("mirror, glass and bare specular lobes on spheres, cylinders, disks and triangles under rigid and mirrored placements, hit from "
        "both sides; a recording renderer receives the followed ray; distinct by shape, material and ray")


class Rec(object):
    """a renderer that records the rays it is asked to follow and answers with a constant radiance"""

    def __init__(self, L):
        self.L, self.rays = L, []

    def li(self, scene, ray, sample, isect, rng=None):
        self.rays.append(ray)
        return [Spectrum.from_rgb(self.L), Spectrum(1.)]


def rgb(s):
    return [float(x) for x in np.array(s.to_rgb() if hasattr(s, 'to_rgb') else s, dtype=float)]


def reflect(n, d):
    return g.sub(d, g.mul(n, 2. * g.dot(n, d)))


def refract(n, d, ior):
    """direction of the refracted ray, None under total internal reflection; n points to the side of index one"""
    ci = -g.dot(n, d)
    e = 1. / ior if ci > 0 else ior
    m = n if ci > 0 else g.mul(n, -1.)
    ci = abs(ci)
    k = 1. - e * e * (1. - ci * ci)
    if k <= 0:
        return None
    return g.add(g.mul(d, e), g.mul(m, e * ci - math.sqrt(k)))


def trace(ref, o, d, side, t0):
    """hit point and unit normal where this ray meets the surface near parameter t0"""
    ts, close = ref.hits(o, d, 0., math.inf)
    if close or not ts:
        return None
    t = min(ts, key=lambda x: abs(x - t0))
    p = g.add(o, g.mul(d, t))
    n = g.nrm(g.m_nrm(ref.M, ref.obj_normal(g.m_pt(ref.inv, p))))
    return p, g.mul(n, side)


@task(quick=6000, thorough=150000, min_events=40000)
def bounce(c):
    r = c.rng
    ref = S.rand_shape(r, place=rigid_or_mirror)
    for _ in range(6):
        o, d, _, _ = S.aimed_ray(r, ref, miss=0.)
        d = g.nrm(d)
        ts, close = ref.hits(o, d, 0., math.inf)
        if ts and not close:
            break
    else:
        return
    size = ref.size * ref.scale
    p0 = g.add(o, g.mul(d, ts[0]))
    if ts[0] > 30 * size:
        o = g.sub(p0, g.mul(d, 30 * size))
        ts = [30 * size]
    ior = r.uniform(1.05, 2.5)
    Kr, Kt = [r.uniform(.05, 1.) for _ in range(3)], [r.uniform(.05, 1.) for _ in range(3)]
    kind = r.choice(["mirror", "glass", "glass", "lobes"])
    sKr, sKt = Spectrum.from_rgb(Kr), Spectrum.from_rgb(Kt)
    if kind == "mirror":
        mat = MirrorMaterial(ConstantTexture(sKr))
    elif kind == "glass":
        mat = GlassMaterial(ConstantTexture(sKr), ConstantTexture(sKt), ConstantTexture(ior))
    else:
        mat = R_.Mat([SpecularReflection(sKr, FresnelFullReflect()), SpecularTransmission(sKt, 1., ior)], ior)
    prim = GeometricPrimitive(ref.shape, mat, None)
    depth, time = r.randrange(4), r.random()
    ray = geo.RayDifferential(g.P(o), g.V(d), 0., math.inf, depth, time)
    diff = r.random() < .9
    offs = []
    h = 1e-5
    if diff:
        ray.has_differentials = True
        for _ in range(2):
            oo = g.add(o, g.mul(g.gunit(r), h * r.random() * min(size, 1.)))
            # directions turn by an angle that moves the hit point by about h times the size of the shape
            dd = g.nrm(g.add(d, g.mul(g.gunit(r), h * r.random() * min(1., .5 * size / (ts[0] + 1e-3)))))
            offs.append((oo, dd))
        ray.rxOrigin, ray.rxDirection = g.P(offs[0][0]), g.V(offs[0][1])
        ray.ryOrigin, ray.ryDirection = g.P(offs[1][0]), g.V(offs[1][1])
    c.note(ray=[o, d], offs=offs, mat=[kind, ior, Kr, Kt], **ref.info)
    c.sig(ref.info, o, d, kind)
    isect = Intersection()
    if not c.check(bool(prim.intersect(ray, isect)), "hit", "expected hit missed (see P01)"):
        return
    bsdf = isect.get_bsdf(ray)
    nn = g.lst(isect.dg.nn)
    p = g.lst(isect.dg.p)
    ci = g.dot(nn, d)
    if abs(ci) < .25:
        return
    L = [r.uniform(.1, 2.) for _ in range(3)]
    for name, fn, flag in (("reflect", specular_reflect, BDFType.REFLECTION), ("transmit", specular_transmit, BDFType.TRANSMISSION)):
        rec = Rec(L)
        snap = g.ray_snap(ray)
        got = fn(ray, bsdf, isect, rec, None, None, R_.Rng(r.random()))
        c.check(g.ray_snap(ray) == snap, "ray-mutated", "following a specular bounce modified the incoming ray")
        far = (lambda n_, d_: reflect(n_, d_)) if name == "reflect" else (lambda n_, d_: refract(n_, d_, ior))
        want = far(nn, d)
        if name == "transmit" and (kind == "mirror" or want is None):
            c.event("no-transmission")
            c.check(not rec.rays and max(map(abs, rgb(got))) == 0., "nothing", "radiance transmitted where nothing is")
            continue
        if want is not None and name == "transmit" and abs(g.dot(want, nn)) < .25:
            continue
        if name == "reflect" and not rec.rays:
            # a black lobe is not followed
            c.check(kind == "glass", "followed", "reflection not followed")
            c.event("too-dark")
            continue
        if not c.check(len(rec.rays) == 1, name + "-followed", "not exactly one ray followed", n=len(rec.rays)):
            return
        rd = rec.rays[0]
        where = name + (".front" if ci < 0 else ".back")
        c.event(where)
        wi = g.lst(rd.d)
        c.close(wi, want, name + "-direction", "followed ray has the wrong direction", tol=1e-6)
        c.close(rd.o, p, name + "-origin", "followed ray does not start at the hit point", tol=1e-9, rel=1 + size)
        c.check(rd.depth == depth + 1 and rd.time == time and rd.mint == isect.rEps and rd.maxt == math.inf, name + "-range",
                "followed ray has the wrong depth, time or range", got=[rd.depth, rd.time, rd.mint, rd.maxt], want=[depth + 1, time, isect.rEps])
        # radiance: what the lobe passes on
        pdf, wl, _, f = bsdf.sample_f(g.V(g.mul(d, -1.)), BSDFSample.from_rand(R_.Rng(1)), BDFType(flag | BDFType.SPECULAR))
        exp = [a * b * abs(g.dot(nn, want)) / float(pdf) for a, b in zip(rgb(f), L)]
        c.close(rgb(got), exp, name + "-radiance", "estimate is not the radiance found times the lobe's factor", tol=1e-9, rel=1 + max(exp))
        c.check(bool(rd.has_differentials) == diff, name + "-has", "differentials invented or lost", has=rd.has_differentials)
        if not diff:
            continue
        side = 1. if g.dot(g.nrm(g.m_nrm(ref.M, ref.obj_normal(g.m_pt(ref.inv, p)))), nn) > 0 else -1.
        for k, (ro, rdir) in enumerate(((rd.rxOrigin, rd.rxDirection), (rd.ryOrigin, rd.ryDirection))):
            near = trace(ref, offs[k][0], offs[k][1], side, ts[0])
            if near is None or g.ln(g.sub(near[0], p)) > 1e-2 * size:
                continue
            c.event(where + ".diff", 1)
            w2 = far(near[1], offs[k][1])
            if w2 is None:
                continue
            dp, dw = g.sub(near[0], p), g.sub(w2, want)
            c.close([x / h for x in g.sub(g.lst(ro), p)], [x / h for x in dp], name + "-offset-origin",
                    "auxiliary ray does not start where the neighbouring ray hits", tol=2e-2, rel=.1 * size + g.ln(dp) / h)
            gain = g.ln(dw) / h
            c.close([x / h for x in g.sub(g.lst(rdir), wi)], [x / h for x in dw], name + "-offset-direction",
                    "auxiliary ray does not follow the neighbouring ray's bounce", tol=1e-2, rel=.3 + gain, gain=gain, cos=ci)
