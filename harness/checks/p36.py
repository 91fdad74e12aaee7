"""P36 materials: lobes, blending, bump mapping, measured data"""
import math
import os
import shutil
import tempfile
import itertools
from core import tasklist
import gen as g
import bxdfs as b
import shapes as S
import numpy as np
import pytracer.geometry as geo
from pytracer import Spectrum
from pytracer.reflection import BSDFSample, BDFType
from pytracer.material import (Material, MatteMaterial, PlasticMaterial, MixMaterial, MeasuredMaterial, SubsurfaceMaterial,
                               KdSubsurfaceMaterial, UberMaterial, MirrorMaterial, MetalMaterial, GlassMaterial)

TASKS, task = tasklist()
RULE = ("all materials (mixtures nested to depth 3) with position, uv and footprint dependent textures, also negative, above one and black; shading frames tilted against "
        "the geometric normal; directions on both sides, grazing included; bump maps over all shapes, reversed and mirrored; distinct by material, hit and direction")
PI = math.pi


class FTex(object):
    """a float texture: affine in u, v and the footprint, counting its lookups"""

    def __init__(self, f, ret=float):
        self.f = f
        self.ret = ret
        self.n = 0

    def __call__(self, dg):
        self.n += 1
        return self.ret(self.f(dg))


class CTex(object):
    def __init__(self, cs):
        self.cs = cs
        self.n = 0

    def val(self, dg):
        k = .5 + .5 * math.sin(3 * float(dg.u) + 5 * float(dg.v) + float(dg.p.x) + 7 * float(dg.dudx))
        return [c * (.6 + .4 * k) for c in self.cs]

    def __call__(self, dg):
        self.n += 1
        return b.sp(self.val(dg))


def colour(r, top=1.):
    k = r.random()
    if k < .15:
        return [0., 0., 0.]
    if k < .3:
        return [r.choice([0., r.random() * top]) for _ in range(3)]
    if k < .45:
        return [r.uniform(-.5, 1.) * top for _ in range(3)]
    if k < .55:
        return [r.random() * 2 for _ in range(3)]
    return [r.random() * top for _ in range(3)]


def pos(c):
    return [max(0., x) for x in c]


def black(c):
    return all(x <= 0. for x in c)


def edge(c):
    """so close to black that rounding may decide"""
    return 0. < abs(max(c)) < 1e-12


# ---- reference lobes: ("f", refl?, fn(wo,wi)) or ("d", fn(wo) -> (wi or None, value*cos))
def l_lambert(R):
    return ("f", lambda wo, wi: [x / PI for x in R])


def l_oren(R, sig):
    s2 = math.radians(sig) ** 2
    A, B = 1 - s2 / (2 * (s2 + .33)), .45 * s2 / (s2 + .09)

    def f(wo, wi):
        ti, to = math.acos(min(1., abs(wi[2]))), math.acos(min(1., abs(wo[2])))
        a, q = max(ti, to), min(ti, to)
        dp = math.atan2(wi[1], wi[0]) - math.atan2(wo[1], wo[0])
        k = A + B * max(0., math.cos(dp)) * math.sin(a) * math.tan(q)
        return [x / PI * k for x in R]
    return ("f", f)


def l_blinn(R, F, rough):
    e = min(10000., 1. / rough) if rough > 0 else 10000.

    def f(wo, wi):
        wh = g.add(wo, wi)
        if g.ln(wh) < 1e-12:
            return [0.] * 3
        wh = g.nrm(wh)
        ch = abs(g.dot(wo, wh))
        k = 2 * abs(wh[2]) / ch
        G = min(1., k * abs(wo[2]), k * abs(wi[2]))
        D = (e + 2) / (2 * PI) * abs(wh[2]) ** e
        q = D * G / (4 * abs(wi[2]) * abs(wo[2]))
        Fr = F(g.dot(wi, wh))
        return [R[i] * Fr[i] * q for i in range(3)]
    return ("f", f)


def l_mirror(R, F):
    return ("d", lambda wo: ([-wo[0], -wo[1], wo[2]], [R[i] * F(wo[2])[i] for i in range(3)]))


def l_glass(T, ei, et):
    def out(wo):
        a, e = (ei, et) if wo[2] > 0 else (et, ei)
        k = a / e
        s2 = k * k * (wo[0] ** 2 + wo[1] ** 2)
        if s2 >= 1.:
            return None, [0.] * 3
        ct = math.sqrt(1 - s2)
        wi = [-k * wo[0], -k * wo[1], -ct if wo[2] > 0 else ct]
        Fr = b.fr_dielectric(wo[2], ei, et)
        return wi, [(1 - Fr) * t * k * k for t in T]
    return ("d", out)


def diel(e):
    return lambda x: [b.fr_dielectric(x, 1., e)] * 3


def full(x):
    return [1.] * 3


def scale(lobes, s):
    out = []
    for kind, f in lobes:
        if kind == "f":
            out.append(("f", lambda wo, wi, f=f: [x * y for x, y in zip(f(wo, wi), s)]))
        else:
            def h(wo, f=f):
                wi, v = f(wo)
                return wi, [x * y for x, y in zip(v, s)]
            out.append(("d", h))
    return out


# ---- random materials: (object, fn(dg) -> reference lobes, description, textures)
def rough_tex(r):
    k = r.random()
    a = 0. if k < .12 else (-.1 if k < .16 else 10 ** r.uniform(-3, 0))
    return FTex(lambda dg: a * (1. + .3 * math.sin(float(dg.u) * 4)), r.choice([float, np.float64])), lambda dg: a * (1. + .3 * math.sin(float(dg.u) * 4)), a


def idx_tex(r):
    a = r.choice([1.5, 1.33, 1., r.uniform(1., 2.5), 1. / 1.5])
    return FTex(lambda dg: a + .05 * math.sin(float(dg.v))), lambda dg: a + .05 * math.sin(float(dg.v)), a


def matte(r, bump):
    k = CTex(colour(r))
    a = r.choice([0., 0., 20., r.uniform(0, 90), 120., -10.])
    st = FTex(lambda dg: a * (1 + .1 * float(dg.u)))

    def ref(dg):
        s = min(90., max(0., a * (1 + .1 * float(dg.u))))
        R = pos(k.val(dg))
        return [l_lambert(R) if s == 0. else l_oren(R, s)]
    return MatteMaterial(k, st, bump), ref, "matte(%s,%g)" % (k.cs, a), [k, st]


def plastic(r, bump):
    kd, ks = CTex(colour(r)), CTex(colour(r))
    rt, rf, a = rough_tex(r)

    def ref(dg):
        return [l_lambert(pos(kd.val(dg))), l_blinn(pos(ks.val(dg)), diel(1.5), rf(dg))]
    return PlasticMaterial(kd, ks, rt, bump), ref, "plastic(%s,%s,%g)" % (kd.cs, ks.cs, a), [kd, ks, rt]


def mirror(r, bump):
    k = CTex(colour(r))
    return MirrorMaterial(k, bump), lambda dg: [l_mirror(pos(k.val(dg)), full)], "mirror(%s)" % k.cs, [k]


def metal(r, bump):
    eta, k = CTex([r.uniform(.1, 4) for _ in range(3)]), CTex([r.uniform(0, 6) for _ in range(3)])
    rt, rf, a = rough_tex(r)

    def ref(dg):
        e, q = eta.val(dg), k.val(dg)
        return [l_blinn([1.] * 3, lambda x: [b.fr_conductor(x, e[i], q[i]) for i in range(3)], rf(dg))]
    return MetalMaterial(eta, k, rt, bump), ref, "metal(%s,%s,%g)" % (eta.cs, k.cs, a), [eta, k, rt]


def glass(r, bump):
    kr, kt = CTex(colour(r)), CTex(colour(r))
    it, fi, a = idx_tex(r)

    def ref(dg):
        e = fi(dg)
        return [l_mirror(pos(kr.val(dg)), diel(e)), l_glass(pos(kt.val(dg)), 1., e)]
    return GlassMaterial(kr, kt, it, bump), ref, "glass(%s,%s,%g)" % (kr.cs, kt.cs, a), [kr, kt, it]


def uber(r, bump):
    kd, ks, kr, kt = [CTex(colour(r)) for _ in range(4)]
    op = CTex(r.choice([[1. / .6] * 3, colour(r), [1., 1., 1.], [r.random()] * 3, [1.5, .4, .8]]))
    rt, rf, a = rough_tex(r)
    it, fi, e0 = idx_tex(r)

    def ref(dg):
        o = pos(op.val(dg))
        e = fi(dg)
        m = lambda t: [x * y for x, y in zip(o, pos(t.val(dg)))]
        return [l_glass([max(0., 1 - x) for x in o], 1., 1.), l_lambert(m(kd)), l_blinn(m(ks), diel(e), rf(dg)),
                l_mirror(m(kr), diel(e)), l_glass(m(kt), 1., e)]
    return UberMaterial(kd, ks, kr, kt, rt, op, it, bump), ref, "uber(kd=%s,ks=%s,kr=%s,kt=%s,op=%s,%g,%g)" % (
        kd.cs, ks.cs, kr.cs, kt.cs, op.cs, a, e0), [kd, ks, kr, kt, op, rt, it]


def subsurface(r, bump):
    k = CTex(colour(r))
    it, fi, a = idx_tex(r)
    o = CTex([r.random() for _ in range(3)])
    if r.random() < .5:
        m = SubsurfaceMaterial(r.uniform(.1, 3), k, o, o, it, bump)
    else:
        m = KdSubsurfaceMaterial(o, k, FTex(lambda dg: 1.), it, bump)
    return m, lambda dg: [l_mirror(pos(k.val(dg)), diel(fi(dg)))], "%s(%s,%g)" % (type(m).__name__, k.cs, a), [k, it]


def mix(r, bump, depth=0):
    m1, f1, d1, t1 = rand_mat(r, bump, depth + 1)
    m2, f2, d2, t2 = rand_mat(r, bump, depth + 1)
    s = CTex(r.choice([[1. / .6] * 3, [0.] * 3, colour(r), [r.random()] * 3, [-.4, .5, 1.8]]))

    def ref(dg):
        a = pos(s.val(dg))
        return scale(f1(dg), a) + scale(f2(dg), [max(0., 1 - x) for x in a])
    return MixMaterial(m1, m2, s), ref, "mix(%s,%s,%s)" % (d1, d2, s.cs), [s] + t1 + t2


KINDS = [matte, plastic, mirror, metal, glass, uber, subsurface]


def rand_mat(r, bump=None, depth=0):
    if depth < 3 and r.random() < (.2 if depth == 0 else .3):
        return mix(r, bump, depth)
    return r.choice(KINDS)(r, bump)


# ---- hits
def frame_dg(r, n=None):
    """a surface point: DifferentialGeometry with normal n"""
    n = n or g.unit(r)
    s, t, _ = g.onb(n)
    a = r.uniform(0, 2 * PI)
    s, t = g.add(g.mul(s, math.cos(a)), g.mul(t, math.sin(a))), g.add(g.mul(t, math.cos(a)), g.mul(s, -math.sin(a)))
    if g.dot(g.cross(s, t), n) < 0:
        s, t = t, s
    du = g.mul(s, math.exp(r.gauss(0, .7)))
    dv = g.mul(g.add(t, g.mul(s, r.uniform(-.5, .5))), math.exp(r.gauss(0, .7)))
    w = lambda: g.N([r.gauss(0, .5) for _ in range(3)])
    dg = geo.DifferentialGeometry(g.P(g.vec3(r)), g.V(du), g.V(dv), w(), w(), r.random(), r.random(), None)
    dg.dudx, dg.dvdx, dg.dudy, dg.dvdy = [r.choice([0., r.gauss(0, .05)]) for _ in range(4)]
    dg.dpdx, dg.dpdy = g.V(g.vec3(r)), g.V(g.vec3(r))
    return dg, s, n


def snap_dg(dg):
    return [g.lst(x) for x in (dg.p, dg.nn, dg.dpdu, dg.dpdv, dg.dndu, dg.dndv, dg.dpdx, dg.dpdy)] + [
        float(x) for x in (dg.u, dg.v, dg.dudx, dg.dudy, dg.dvdx, dg.dvdy)]


SPECR = BDFType.SPECULAR | BDFType.REFLECTION
SPECT = BDFType.SPECULAR | BDFType.TRANSMISSION
SPECA = BDFType.SPECULAR | BDFType.REFLECTION | BDFType.TRANSMISSION


def to_l(fr, v):
    return [g.dot(v, x) for x in fr]


def to_w(fr, v):
    return g.add(g.add(g.mul(fr[0], v[0]), g.mul(fr[1], v[1])), g.mul(fr[2], v[2]))


def deltas(bs, fr, wo, flags):
    """specular contributions [(local direction, value*cos)] of all components"""
    n = bs.n_components(flags)
    out = []
    for i in range(n):
        pdf, wi, tp, f = bs.sample_f(g.V(wo), BSDFSample(.3, .6, (i + .5) / n), flags)
        if pdf == 0. or wi is None:
            continue
        w = to_l(fr, g.lst(wi))
        out.append((w, [x * abs(w[2]) / (float(pdf) * n) for x in b.vals(f)]))
    return out


def group(ds):
    """merge contributions by direction"""
    out = []
    for w, v in ds:
        for o in out:
            if g.ln(g.sub(o[0], w)) < 1e-6:
                o[1] = [x + y for x, y in zip(o[1], v)]
                break
        else:
            out.append([w, list(v)])
    return out


def compare(c, bs, lobes, s, n, ng, nd=3):
    """the scattering function against the reference lobes"""
    r = c.rng
    fr = (s, g.cross(n, s), n)
    for _ in range(nd):
        wo, wi = b.direction(r, 1e-3), b.direction(r, 1e-3)
        if r.random() < .3:
            # near the mirror direction, where highlights live
            wi = g.nrm(g.add([-wo[0], -wo[1], wo[2]], g.mul(g.gunit(r), 10 ** r.uniform(-3, -.5))))
        if abs(wi[2]) < 1e-3:
            continue
        ow, iw = to_w(fr, wo), to_w(fr, wi)
        if min(abs(g.dot(ow, ng)), abs(g.dot(iw, ng))) < 1e-6:
            continue
        c.note(wo=wo, wi=wi)
        c.sig(c.desc.get("mat"), wo, wi)
        got = b.vals(bs.f(g.V(ow), g.V(iw)))
        want = [0.] * 3
        if g.dot(ow, ng) * g.dot(iw, ng) > 0:
            wh = g.add(wo, wi)
            if g.ln(wh) < 1e-3 or abs(g.nrm(wh)[2]) < 1e-9:
                continue
            for kind, f in lobes:
                if kind == "f":
                    want = [x + y for x, y in zip(want, f(wo, wi))]
            c.event("reflection")
        sc = 1 + max(abs(x) for x in want)
        # half vectors amplify rounding by the exponent: allow it
        c.check(all(abs(x - y) <= 2e-6 * sc for x, y in zip(got, want)), "value", "scattering is not the sum of the described lobes", got=got, want=want)
        c.check(all(math.isfinite(x) and x >= 0 for x in got), "nonneg", "negative or undefined scattering", got=got)
        # ideal lobes
        ref, skip = [], False
        for kind, f in lobes:
            if kind == "d":
                w, v = f(wo)
                if w is None:
                    continue
                if abs(w[2]) < 1e-4:
                    skip = True
                if max(v) > 0:
                    ref.append((w, v))
        if skip:
            c.event("near-critical")
            continue
        have = group(deltas(bs, fr, ow, SPECR) + deltas(bs, fr, ow, SPECT))
        alls = group(deltas(bs, fr, ow, SPECA))
        want = group(ref)
        for hs, mech in ((have, "ideal"), (alls, "ideal-all")):
            for w, v in want:
                m = [h for h in hs if g.ln(g.sub(h[0], w)) < 1e-6]
                if max(v) < 1e-9:
                    continue
                c.check(m and all(abs(x - y) < 1e-8 + 1e-6 * y for x, y in zip(m[0][1], v)), mech, "ideal reflection or transmission", want=[w, v], got=hs)
            for w, v in hs:
                m = [h for h in want if g.ln(g.sub(h[0], w)) < 1e-6]
                c.check(m or max(abs(x) for x in v) < 1e-9, mech + "-none", "ideal lobe that no parameter describes", got=[w, v], want=want)
        if want:
            c.event("ideal-seen")


@task(quick=6000, thorough=150000, min_events=60000)
def lobes(c):
    r = c.rng
    m, ref, desc, texs = rand_mat(r)
    dgs, s, n = frame_dg(r)
    k = r.random()
    ng = list(n) if k < .4 else (g.nrm(g.add(n, g.mul(g.gunit(r), r.uniform(0, .8)))) if k < .9 else g.gunit(r))
    dgg, _, _ = frame_dg(r, ng)
    c.note(mat=desc, n=n, ng=ng)
    before = snap_dg(dgg), snap_dg(dgs)
    bs = m.get_bsdf(dgg, dgs)
    c.check((snap_dg(dgg), snap_dg(dgs)) == before, "args", "building the scattering function changed the hit")
    c.event(type(m).__name__)
    if isinstance(m, GlassMaterial):
        c.close(float(bs.eta), float(texs[2](dgs)), "index", "glass does not carry its index of refraction", tol=1e-12)
    compare(c, bs, ref(dgs), s, n, ng)
    if r.random() < .3:
        # a second hit does not depend on the first
        dg2, s2, n2 = frame_dg(r)
        b2 = m.get_bsdf(dg2, dg2)
        compare(c, b2, ref(dg2), s2, n2, n2, 1)
        compare(c, bs, ref(dgs), s, n, ng, 1)
        c.event("again")


@task(quick=200, thorough=8000, min_events=300)
def albedo(c):
    """reflected plus transmitted flux never exceeds the incident flux"""
    r = c.rng
    kind = r.choice(["matte", "plastic", "metal", "glass", "uber", "mix"])

    def one(kind, depth=0):
        R = [r.uniform(.5, 1.) for _ in range(3)]
        C = lambda v: (lambda dg: b.sp(v))
        F = lambda v: (lambda dg: float(v))
        if kind == "matte":
            return MatteMaterial(C(R), F(r.choice([0., r.uniform(0, 60)])))
        if kind == "metal":
            return MetalMaterial(C([r.uniform(.1, 3) for _ in range(3)]), C([r.uniform(2, 6) for _ in range(3)]), F(r.uniform(.08, 1)))
        if kind == "glass":
            return GlassMaterial(C([1.] * 3), C([1.] * 3), F(r.uniform(1.1, 2.2)))
        w = [r.random() for _ in range(4)]
        t = sum(w)
        w = [x / t for x in w]
        if kind == "plastic":
            q = w[0] + w[1]
            return PlasticMaterial(C([x * w[0] / q for x in R]), C([x * w[1] / q for x in R]), F(r.uniform(.08, 1)))
        if kind == "uber":
            return UberMaterial(C([x * w[0] for x in R]), C([x * w[1] for x in R]), C([x * w[2] for x in R]), C([x * w[3] for x in R]),
                                F(r.uniform(.08, 1)), C([r.random()] * 3), F(r.uniform(1.1, 2.2)))
        if depth > 1:
            return one("matte")
        ks = ["matte", "plastic", "metal", "glass", "uber", "mix"]
        return MixMaterial(one(r.choice(ks), depth + 1), one(r.choice(ks), depth + 1), C([r.random() for _ in range(3)]))
    m = one(kind)
    dg, s, n = frame_dg(r)
    bs = m.get_bsdf(dg, dg)
    fr = (s, g.cross(n, s), n)
    ct = r.uniform(.1, .98) * r.choice([1, 1, -1])
    wo = [math.sqrt(1 - ct * ct), 0., ct]
    a = r.uniform(0, 2 * PI)
    wo = [wo[0] * math.cos(a), wo[0] * math.sin(a), ct]
    c.note(kind=kind, wo=wo)
    c.sig(kind, wo, n)
    ow = g.V(to_w(fr, wo))
    tot = [0.] * 3
    N, M = 24, 32
    for i in range(N):
        # substitution u = sin^2: uniform in projected solid angle
        u = (i + .5) / N
        st, c2 = math.sqrt(u), math.sqrt(1 - u)
        for j in range(M):
            p = 2 * PI * (j + r.random()) / M
            for sg in ((1,) if ct > 0 else (-1,)):
                v = b.vals(bs.f(ow, g.V(to_w(fr, [st * math.cos(p), st * math.sin(p), sg * c2]))))
                tot = [x + y * PI / (N * M) for x, y in zip(tot, v)]
    for w, v in deltas(bs, fr, g.lst(ow), SPECA):
        if w[2] * ct < 0:
            # radiance is scaled by the squared relative index: undo by Snell's ratio of sines
            so, si = math.sqrt(1 - ct * ct), math.sqrt(max(0., 1 - w[2] ** 2))
            k = (si / so) ** 2
            v = [x / k for x in v] if k > 0 else v
        tot = [x + y for x, y in zip(tot, v)]
    c.event(kind)
    c.check(all(x >= 0 for x in tot), "positive", "negative albedo", tot=tot)
    c.check(max(tot) <= 1.03, "energy", "reflects more than it receives", tot=tot)


# ---- bump mapping
def shape_hit(c):
    """(dg, ref) of a clear hit on a random shape"""
    r = c.rng
    ref = S.rand_shape(r)
    for _ in range(5):
        o, d, mint, maxt = S.aimed_ray(r, ref, miss=0.)
        want, close = ref.hits(o, d, 0., math.inf)
        if not want or close:
            continue
        O, D = g.m_pt(ref.inv, o), g.m_vec(ref.inv, d)
        p = g.add(O, g.mul(D, want[0]))
        if ref.kind != "triangle" and math.hypot(p[0], p[1]) < .1 * ref.prm['r']:
            continue
        ret = ref.shape.intersect(geo.Ray(g.P(o), g.V(d), 0., math.inf))
        if not ret[0]:
            return None
        c.note(ray=[o, d], **ref.info)
        return ret[3], ref
    return None


@task(quick=4000, thorough=100000, min_events=9000)
def bump(c):
    r = c.rng
    h = shape_hit(c)
    if h is None:
        c.event("no-clear-hit")
        return
    dg, ref = h
    if r.random() < .6:
        # fine footprints: detail must be measured at the size of the pixel
        size = r.choice([.02, .02, 1e-3, 1e-4])
        dg.dudx, dg.dvdx, dg.dudy, dg.dvdy = [r.choice([0., r.gauss(0, size), r.gauss(0, size)]) for _ in range(4)]
    foot = [.5 * (abs(float(dg.dudx)) + abs(float(dg.dudy))), .5 * (abs(float(dg.dvdx)) + abs(float(dg.dvdy)))]
    foot = [max(h, 1e-5) if h > 0 else .01 for h in foot]
    L = max(g.ln(g.lst(dg.dpdu)), g.ln(g.lst(dg.dpdv)))
    if not (math.isfinite(L) and 1e-6 < L < 1e6):
        return
    a0 = r.choice([0., r.gauss(0, .2)]) * ref.scale
    au, av = r.gauss(0, .3) * L, r.gauss(0, .3) * L
    w = g.mul(g.vec3(r, .3), 1.) if r.random() < .4 else [0.] * 3
    if r.random() < .1:
        au = av = 0.
    u0, v0, p0 = float(dg.u), float(dg.v), g.lst(dg.p)
    curv = r.random() < .4
    sharp = r.choice([1., 1., r.uniform(.05, 1.) / max(foot)])
    quad = [r.gauss(0, .2) * L * sharp for _ in range(3)] if curv else [0.] * 3

    def disp(d):
        u, v = float(d.u) - u0, float(d.v) - v0
        return a0 + au * u + av * v + g.dot(w, g.sub(g.lst(d.p), p0)) + quad[0] * u * u + quad[1] * u * v + quad[2] * v * v
    tex = FTex(disp, r.choice([float, np.float64]))
    n = g.lst(dg.nn)
    ng = n if r.random() < .5 else g.nrm(g.add(n, g.mul(g.gunit(r), r.uniform(0, .9))))
    if r.random() < .15:
        ng = g.mul(ng, -1.)
    dgg = dg.copy()
    dgg.nn = g.N(ng)
    c.note(a0=a0, au=au, av=av, w=w, quad=quad, ng=ng, foot=[float(x) for x in (dg.dudx, dg.dudy, dg.dvdx, dg.dvdy)])
    c.sig(ref.info, p0, a0, au, av, w)
    before = snap_dg(dg), snap_dg(dgg)
    out = Material.bump(tex, dgg, dg)
    c.check((snap_dg(dg), snap_dg(dgg)) == before, "args", "bump mapping changed the hit")
    pu, pv = g.lst(dg.dpdu), g.lst(dg.dpdv)
    nu, nv = g.lst(dg.dndu), g.lst(dg.dndv)
    # the normal derivatives are those of the unreversed normal
    flip = -1. if ref.ro else 1.
    # derivatives of p + disp*n along u and v
    gu, gv = au + g.dot(w, pu), av + g.dot(w, pv)
    qu = g.add(g.add(pu, g.mul(n, gu)), g.mul(nu, flip * a0))
    qv = g.add(g.add(pv, g.mul(n, gv)), g.mul(nv, flip * a0))
    cr = g.cross(qu, qv)
    if g.ln(cr) < 1e-6 * (g.ln(qu) * g.ln(qv)) or g.ln(cr) < 1e-12:
        return
    want = g.nrm(cr)
    if abs(g.dot(want, ng)) < 1e-4:
        return
    if g.dot(want, ng) < 0:
        want = g.mul(want, -1.)
    got = g.lst(out.nn)
    c.close(g.ln(got), 1., "unit", "bumped normal is not a unit vector", tol=1e-9)
    if not curv:
        cond = g.ln(qu) * g.ln(qv) / g.ln(cr)
        c.check(g.ln(g.sub(got, want)) <= 1e-6 * cond, "normal", "not the normal of the displaced surface", got=got, want=want, plain=n, flip=flip)
        if flip < 0:
            c.event("flipped")
        sc = 1 + L
        c.check(g.ln(g.sub(g.lst(out.dpdu), qu)) <= 1e-6 * (sc + g.ln(qu)) and g.ln(g.sub(g.lst(out.dpdv), qv)) <= 1e-6 * (sc + g.ln(qv)),
                "tangents", "not the tangents of the displaced surface", got=[g.lst(out.dpdu), g.lst(out.dpdv)], want=[qu, qv])
    else:
        # a forward difference over the pixel footprint (at most this long)
        hu, hv = foot
        eu, ev = abs(quad[0]) * hu, abs(quad[2]) * hv
        err = (eu * g.ln(qv) + ev * g.ln(qu) + eu * ev) / g.ln(cr)
        if err < .2 and abs(g.dot(want, ng)) > 2.5 * err:
            c.check(g.ln(g.sub(got, want)) <= 2 * err + 1e-6 * g.ln(qu) * g.ln(qv) / g.ln(cr), "normal-curved", "normal of a curved displacement is off", got=got, want=want, err=err)
    c.check(g.dot(got, ng) >= -1e-12, "hemisphere", "bumped normal left the geometric hemisphere", got=got, ng=ng)
    c.check(g.lst(out.p) == p0 and float(out.u) == u0 and float(out.v) == v0, "place", "bump mapping moved the hit")
    c.check([float(x) for x in (out.dudx, out.dudy, out.dvdx, out.dvdy)] == [float(x) for x in (dg.dudx, dg.dudy, dg.dvdx, dg.dvdy)], "foot", "bump mapping changed the footprint")


@task(quick=1800, thorough=40000, min_events=8000)
def bumped(c):
    """every material scatters about the bumped normal"""
    r = c.rng
    h = shape_hit(c)
    if h is None:
        c.event("no-clear-hit")
        return
    dg, ref = h
    L = max(g.ln(g.lst(dg.dpdu)), g.ln(g.lst(dg.dpdv)))
    if not (math.isfinite(L) and 1e-3 < L < 1e3):
        return
    au, av = r.gauss(0, .5) * L, r.gauss(0, .5) * L
    u0, v0 = float(dg.u), float(dg.v)
    tex = FTex(lambda d: au * (float(d.u) - u0) + av * (float(d.v) - v0))
    m, lob, desc, texs = rand_mat(r, tex)
    c.note(mat=desc, au=au, av=av)
    n = g.lst(dg.nn)
    pu, pv = g.lst(dg.dpdu), g.lst(dg.dpdv)
    qu, qv = g.add(pu, g.mul(n, au)), g.add(pv, g.mul(n, av))
    cr = g.cross(qu, qv)
    if g.ln(cr) < 1e-3 * g.ln(qu) * g.ln(qv):
        return
    nb = g.nrm(cr)
    if g.dot(nb, n) < 0:
        nb = g.mul(nb, -1.)
    if isinstance(m, MixMaterial):
        c.event("mix")
    bs = m.get_bsdf(dg, dg)
    c.event(type(m).__name__)
    compare(c, bs, lob(dg), g.nrm(qu), nb, n, 2)


# ---- measured data and subsurface
def table(r):
    nw = r.randint(1, 6)
    wl = sorted(r.uniform(380, 720) for _ in range(nw))
    if r.random() < .3:
        r.shuffle(wl)
    rows = []
    for _ in range(r.choice([3, 5, 20, 60])):
        rows.append(([r.uniform(0, PI / 2), r.uniform(0, 2 * PI), r.uniform(0, PI / 2), r.uniform(0, 2 * PI)], [r.random() * .4 for _ in range(nw)]))
    return wl, rows


def write(r, path, wl, rows):
    with open(path, "w") as f:
        f.write("# measured data\n\n")
        f.write("%d %s\n" % (len(wl), " ".join(repr(x) for x in wl)))
        for k, (a, v) in enumerate(rows):
            if r.random() < .1:
                f.write("# row %d\n" % k)
            t = [repr(x) for x in a + v]
            if r.random() < .2:
                f.write(" ".join(t[:3]) + "\n" + "\t".join(t[3:]) + "\n")
            else:
                f.write("  ".join(t) + "\n")


@task(quick=60, thorough=1500, min_events=900)
def measured(c):
    r = c.rng
    Spectrum.init()
    tmp = tempfile.mkdtemp(prefix="p36.")
    try:
        files = []
        base = "m%d.brdf" % r.randrange(10 ** 9)
        for k in range(3):
            d = os.path.join(tmp, "d%d" % k)
            os.mkdir(d)
            wl, rows = table(r)
            path = os.path.join(d, base if k < 2 else "x" + base)
            write(r, path, wl, rows)
            files.append((path, wl, rows))
        order = [0, 1, 2, 0, 1]
        r.shuffle(order)
        mats = [(k, MeasuredMaterial(files[k][0])) for k in order]
        for k, m in mats:
            path, wl, rows = files[k]
            c.note(file=k, order=order, rows=len(rows), wl=wl)
            pts, cs = [], []
            for (ti, pi, to, po), v in rows:
                dp = (pi - po) % (2 * PI)
                dp = min(dp, 2 * PI - dp)
                pts.append([math.sin(ti) * math.sin(to), dp / PI, math.cos(ti) * math.cos(to)])
                cs.append(b.vals(Spectrum.from_sampled(wl, v)))
            dg, s, n = frame_dg(r)
            bs = m.get_bsdf(dg, dg)
            fr = (s, g.cross(n, s), n)
            for _ in range(5):
                wo, wi = b.direction(r, .01), b.direction(r, .01)
                if wo[2] * wi[2] < 0:
                    wi[2] = -wi[2]
                q = [math.hypot(wo[0], wo[1]) * math.hypot(wi[0], wi[1]), 0., wo[2] * wi[2]]
                dp = abs(math.atan2(wi[1], wi[0]) - math.atan2(wo[1], wo[0]))
                q[1] = min(dp, 2 * PI - dp) / PI
                ds = [g.ln(g.sub(p, q)) for p in pts]
                rad = .01
                while not (sum(1 for x in ds if x <= rad) > 2 or rad > 1.5):
                    rad *= 1.414
                if min(abs(x - rad) for x in ds) < 1e-6 or not any(x <= rad for x in ds):
                    continue
                ws = [math.exp(-100 * x * x) if x <= rad else 0. for x in ds]
                if sum(ws) < 1e-200:
                    continue
                want = [max(0., sum(w * x[i] for w, x in zip(ws, cs))) / sum(ws) for i in range(3)]
                got = b.vals(bs.f(g.V(to_w(fr, wo)), g.V(to_w(fr, wi))))
                c.sig(path, wo, wi)
                c.close(got, want, "value", "not the measured data of this file", tol=1e-6, rel=1 + max(abs(x) for row in cs for x in row), wo=wo, wi=wi)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


@task(quick=1500, thorough=20000, min_events=4000)
def bssrdf(c):
    r = c.rng
    sc = r.choice([1., r.uniform(.1, 4)])
    a, s, k = CTex([r.random() for _ in range(3)]), CTex([r.random() * 3 for _ in range(3)]), CTex(colour(r))
    it, fi, e = idx_tex(r)
    m = SubsurfaceMaterial(sc, k, a, s, it)
    dgg, _, _ = frame_dg(r)
    dg, _, _ = frame_dg(r)
    before = snap_dg(dg)
    x = m.get_bssrdf(dgg, dg)
    c.note(sc=sc, a=a.cs, s=s.cs, e=e)
    c.sig(sc, a.cs, s.cs)
    c.close(b.vals(x.sigma_a), [sc * y for y in a.val(dg)], "sigma-a", "scaled absorption", tol=1e-9)
    c.close(b.vals(x.sigma_prime_s), [sc * y for y in s.val(dg)], "sigma-s", "scaled reduced scattering", tol=1e-9)
    c.close(float(x.eta), fi(dg), "eta", "refractive index", tol=1e-9)
    c.check(snap_dg(dg) == before, "args", "changed the hit")
    o = r.choice(KINDS[:6])(r, None)[0]
    c.check(o.get_bssrdf(dgg, dg) is None, "none", "opaque material has a subsurface model")
