"""P44 finished pictures against an independent ray tracer"""
import copy
import math
import os
import shutil
import tempfile
import contextlib
from core import tasklist
import gen as g
import numpy as np
import bxdfs as B
import lights as LT
import render as R_
import shapes as S
import pytracer.geometry as geo
import pytracer.light as L
import pytracer.filter as FL
import PIL.Image
from pytracer import Spectrum
from pytracer.transform import Transform, AnimatedTransform
from pytracer.shape import create_triangle_mesh
from pytracer.aggregate import GeometricPrimitive, TransformedPrimitive
from pytracer.film import ImageFilm
from pytracer.integrator import DirectLightingIntegrator, WhittedIntegrator, PathIntegrator, LightStrategy
from pytracer.material import MatteMaterial, PlasticMaterial, MirrorMaterial, GlassMaterial, MixMaterial, MetalMaterial, UberMaterial
from pytracer.renderer import SamplerRenderer, SamplerRendererTask
from pytracer.sampler import StratifiedSampler, Sample
from pytracer.scene import Scene
from pytracer.texture import ConstantTexture, UVTexture, BilerpTexture, Chekcerboard2DTexture, Checkboard3DTexture, UVMapping2D, IdentityMapping3D
from pytracer.volume.volume import HomogeneousVolumeDensity
from checks.p03 import build, METHODS
from checks.p21 import rand_cam
from checks import p19, p20

TASKS, task = tasklist()
RULE = ("whole pictures of random scenes: every shape plain, meshed (with and without vertex normals), instanced, nested and moving; matte, rough, plastic, metal, coated, mixed, textured, mirror, glass and partly clear surfaces, emitting "
        "shapes, every lamp, mapped surroundings, absorbing fog; every accelerator and camera; whitted, direct and path integrators of several depths; "
        "rendered whole or in tiles, with crop windows and every filter; distinct by scene")
ASSUMPTIONS = ["samples at stratum centres (the regular pattern of StratifiedSampler)", "pixels whose rays pass within rounding of an edge, or meet a surface again "
               "within the offset used against self-intersection, are not judged", "motion is judged at the middle of the shutter"]
PI = math.pi
BLACK = [0., 0., 0.]
SUB = {}


def sp(v):
    return Spectrum.from_rgb(np.array(v, dtype=float))


def mul3(a, b):
    return [a[i] * b[i] for i in range(3)]


def col(r, lo=.15, hi=.95):
    return [r.uniform(lo, hi) for _ in range(3)]


# ---- textures and materials: (pytracer object, reference)
class Ctx(object):
    """what a texture may look at"""
    def __init__(self, uv, p):
        self.uv, self.p, self.sure = uv, p, True


def texture(r):
    k = r.random()
    if k < .5:
        v = col(r)
        return ConstantTexture(sp(v)), (lambda x: v), "const"
    su, sv, du, dv = [r.uniform(.5, 4), r.uniform(.5, 4), r.uniform(0, 2), r.uniform(0, 2)]
    m = UVMapping2D(su, sv, du, dv)

    def st(x):
        a = [su * x.uv[0] + du, sv * x.uv[1] + dv]
        if min(x.uv[0], 1 - x.uv[0]) < 1e-6 or min(x.uv[1], 1 - x.uv[1]) < 1e-6:
            x.sure = False
        return a

    def cell(x, a):
        for q in a:
            if abs(q - round(q)) < 1e-6:
                x.sure = False
        return [math.floor(q) for q in a]
    if k < .6:
        def uvt(x):
            a = st(x)
            f = cell(x, a)
            return [a[0] - f[0], a[1] - f[1], 0.]
        return UVTexture(m), uvt, "uv"
    c = [col(r) for _ in range(4)]
    if k < .7:
        # corner values
        def bil(x):
            s, t = st(x)
            return [(1 - s) * (1 - t) * c[0][i] + (1 - s) * t * c[1][i] + s * (1 - t) * c[2][i] + s * t * c[3][i] for i in range(3)]
        m1 = UVMapping2D(1., 1., 0., 0.)
        su, sv, du, dv = 1., 1., 0., 0.
        return BilerpTexture(m1, *[sp(v) for v in c]), bil, "bilerp"
    t0, t1 = ConstantTexture(sp(c[0])), ConstantTexture(sp(c[1]))
    if k < .85:
        return Chekcerboard2DTexture(m, t0, t1, 'none'), (lambda x: c[sum(cell(x, st(x))) % 2]), "checks"
    T, M, _ = g.affine(r)
    return Checkboard3DTexture(IdentityMapping3D(T), t0, t1), (lambda x: c[sum(cell(x, g.m_pt(M, x.p))) % 2]), "checks3d"


def oren_f(rho, sig):
    if sig == 0.:
        return lambda wo, wi: [x / PI for x in rho]
    s2 = math.radians(sig) ** 2
    A, Bc = 1 - s2 / (2 * (s2 + .33)), .45 * s2 / (s2 + .09)

    def f(wo, wi):
        ti, to = math.acos(min(1., abs(wi[2]))), math.acos(min(1., abs(wo[2])))
        a, b = max(ti, to), min(ti, to)
        dp = math.atan2(wi[1], wi[0]) - math.atan2(wo[1], wo[0])
        k = A + Bc * max(0., math.cos(dp)) * math.sin(a) * math.tan(b)
        return [x / PI * k for x in rho]
    return f


def gloss_f(rho, rough, fres=None):
    e = 1. / rough
    fres = fres or (lambda x: [B.fr_dielectric(x, 1., 1.5)] * 3)

    def f(wo, wi):
        wh = g.nrm(g.add(wo, wi))
        k = 2 * abs(wh[2]) / abs(g.dot(wo, wh))
        G = min(1., k * abs(wo[2]), k * abs(wi[2]))
        F = fres(g.dot(wi, wh))
        q = (e + 2) / (2 * PI) * abs(wh[2]) ** e * G / (4 * abs(wi[2]) * abs(wo[2]))
        return [rho[i] * F[i] * q for i in range(3)]
    return f


def diffuse(r, nest=0):
    """(material, reference: context -> f(wo, wi), name)"""
    k = r.random()
    if k < .15 and nest == 0:
        m1, f1, n1 = diffuse(r, 1)
        m2, f2, n2 = diffuse(r, 1)
        a = [r.random() for _ in range(3)]

        def mix(x):
            p, q = f1(x), f2(x)

            def f(wo, wi):
                u, v = p(wo, wi), q(wo, wi)
                return [a[i] * u[i] + (1 - a[i]) * v[i] for i in range(3)]
            return f
        return MixMaterial(m1, m2, ConstantTexture(sp(a))), mix, "mix(%s,%s)" % (n1, n2)
    if k < .25:
        eta, ab, rough = [r.uniform(.1, 4) for _ in range(3)], [r.uniform(0, 6) for _ in range(3)], r.uniform(.08, 1.)
        f = gloss_f([1.] * 3, rough, lambda x: [B.fr_conductor(x, eta[i], ab[i]) for i in range(3)])
        return MetalMaterial(ConstantTexture(sp(eta)), ConstantTexture(sp(ab)), ConstantTexture(rough)), (lambda x: f), "metal"
    tex, ref, tn = texture(r)
    if k < .45:
        ks, rough = col(r), r.uniform(.05, .8)

        def plastic(x):
            p, q = oren_f(ref(x), 0.), gloss_f(ks, rough)
            return lambda wo, wi: g.add(p(wo, wi), q(wo, wi))
        return PlasticMaterial(tex, ConstantTexture(sp(ks)), ConstantTexture(rough)), plastic, "plastic-" + tn
    sig = r.choice([0., 0., r.uniform(1, 89)])
    return MatteMaterial(tex, ConstantTexture(sig)), (lambda x: oren_f(ref(x), sig)), ("rough-" if sig else "matte-") + tn


class Skin(object):
    """a surface: material, light, reference"""

    def __init__(self, r, kind):
        self.kind, self.E = kind, None
        self.name = kind
        if kind == "glow":
            self.mat, self.E = R_.black(), LT.colour(r, 4.)
        elif kind == "diffuse":
            self.mat, self.f, self.name = diffuse(r)
        elif kind == "mirror":
            self.kr = col(r, .3)
            self.mat = MirrorMaterial(ConstantTexture(sp(self.kr)))
        elif kind == "uber":
            # coated: diffuse, glossy, mirror-like and either clear or partly covering
            tex, ref, tn = texture(r)
            ks = col(r) if r.random() < .6 else BLACK
            rough, self.ior, self.tior = r.uniform(.05, .8), r.uniform(1.05, 2.4), 1.
            op = [1.] * 3
            self.kt = BLACK
            kr = col(r, .3) if r.random() < .6 else BLACK
            kt = BLACK
            if r.random() < .5:
                op = col(r, .1, .9)
                self.kt = [1. - x for x in op]
            elif r.random() < .5:
                kt, self.tior = col(r, .3), self.ior
                self.kt = kt
            self.kr = mul3(op, kr)
            fr = lambda x: [B.fr_dielectric(x, 1., self.ior)] * 3

            def f(x):
                p, q = oren_f(mul3(op, ref(x)), 0.), gloss_f(mul3(op, ks), rough, fr)
                return (lambda wo, wi: g.add(p(wo, wi), q(wo, wi))) if max(ks) > 0 else p
            self.f, self.name = f, "uber-" + tn
            C_ = lambda v: ConstantTexture(sp(v))
            self.mat = UberMaterial(tex, C_(ks), C_(kr), C_(kt), ConstantTexture(rough), C_(op), ConstantTexture(self.ior))
        else:
            self.kr, self.kt, self.ior = col(r, .3), col(r, .3), r.uniform(1.05, 2.4)
            self.tior = self.ior
            self.mat = GlassMaterial(ConstantTexture(sp(self.kr)), ConstantTexture(sp(self.kt)), ConstantTexture(self.ior))

    def light(self, shape):
        if self.E is None:
            return None
        return L.DiffuseAreaLight(shape.o2w, sp(self.E), 1, shape.shape)


class Item(object):
    """one reference surface: shape, skin and, per time, where it is"""

    def __init__(self, ref, skin, chain):
        self.ref, self.skin, self.chain = ref, skin, chain

    def at(self, t):
        """the shape where it is at time t"""
        M = self.ref.M
        for place in self.chain:
            M = g.mm(place(t), M)
        w = copy.copy(self.ref)
        w.M, w.inv = M, g.m_inv_affine(M)
        w.skin, w.N = self.skin, getattr(self.ref, 'N', None)
        return w


def bary(w, q):
    """weights of the second and third corner at the object space point"""
    e1, e2, d = g.sub(w.pts[1], w.pts[0]), g.sub(w.pts[2], w.pts[0]), g.sub(q, w.pts[0])
    a, b, c_ = g.dot(e1, e1), g.dot(e1, e2), g.dot(e2, e2)
    x, y = g.dot(d, e1), g.dot(d, e2)
    det = a * c_ - b * b
    return (c_ * x - b * y) / det, (a * y - b * x) / det


def shading_normal(w, q, n):
    """(interpolated world normal or the true one, sure)"""
    N = getattr(w, 'N', None)
    if N is None:
        return n, True
    b, e = bary(w, q)
    raw = [(1 - b - e) * N[0][i] + b * N[1][i] + e * N[2][i] for i in range(3)]
    if g.ln(raw) < .1:
        return n, False
    m = g.nrm(g.m_nrm(w.M, raw))
    return (g.mul(m, -1.) if w.ro else m), True


def uv_of(w, q):
    """surface parameters of the object space point"""
    k, p = w.kind, w.prm
    if k == "triangle":
        return w.uv_of(bary(w, q))
    phi = math.atan2(q[1], q[0]) % (2 * PI)
    u = phi / w.pm
    if k == "sphere":
        t0, t1 = math.acos(w.zlo / p['r']), math.acos(w.zhi / p['r'])
        return u, (math.acos(max(-1., min(1., q[2] / p['r']))) - t0) / (t1 - t0)
    if k == "cylinder":
        return u, (q[2] - w.zlo) / (w.zhi - w.zlo)
    return u, 1. - (math.hypot(q[0], q[1]) - p['ri']) / (p['r'] - p['ri'])


# ---- scene building
def fitted(r, ctr, size, kind=None):
    """a shape of about the given size around ctr"""
    kind = kind or r.choice(S.KINDS)
    prm = S.rand_prm(r, kind)
    probe = S.Ref(kind, Transform(), g.ident(), "", False, prm)
    mid = probe.point(.5, .5) if kind in ("disk", "triangle") else [0., 0., .5 * (probe.zlo + probe.zhi)] if kind == "cylinder" else [0., 0., 0.]
    k = size / probe.size
    ax, ang = g.unit(r), r.uniform(-180, 180)
    s = [k, k, k]
    if r.random() < .3:
        s = [k * r.uniform(.5, 1.5) for _ in range(3)]
    if r.random() < .25:
        i = r.randrange(3)
        s[i] = -s[i]
    T = Transform.translate(g.V(ctr)) * Transform.rotate(ang, g.V(ax)) * Transform.scale(*s) * Transform.translate(g.V(g.mul(mid, -1.)))
    M = g.mm(g.mm(g.m_translate(ctr), g.m_rotate(ang, ax)), g.mm(g.m_scale(s), g.m_translate(g.mul(mid, -1.))))
    return S.Ref(kind, T, M, "fit(%s,%s,%s,%s)" % (ctr, ang, ax, s), r.random() < .4, prm)


def faced(r, ref, eye, kind):
    """emitting shapes mostly show their bright side"""
    if kind != "glow" or r.random() < .2:
        return ref
    q = ref.point(1 / 3., 1 / 3.) if ref.kind == "triangle" else ref.point(.5, .5)
    if g.dot(ref.out_normal(q), g.sub(eye, g.m_pt(ref.M, q))) > 0:
        return ref
    return S.Ref(ref.kind, ref.o2w, ref.M, ref.info['T'], not ref.ro, ref.prm)


def aimed(r, aim, eye, D0):
    """a frame on the viewer's side looking along z at about the target"""
    while True:
        v = g.mul(g.gunit(r), D0 * r.uniform(.3, 1.5))
        if g.dot(v, g.sub(eye, aim)) > 0 or r.random() < .2:
            break
    pos = g.add(aim, v)
    w = g.nrm(g.add(g.mul(g.nrm(v), -1.), g.mul(g.gunit(r), r.choice([0., .3, 1.]) * r.random())))
    ax = g.cross([0., 0., 1.], w)
    ang = math.degrees(math.atan2(g.ln(ax), w[2]))
    ax = g.nrm(ax) if g.ln(ax) > 1e-9 else [1., 0., 0.]
    spin = r.uniform(-180, 180)
    T = Transform.translate(g.V(pos)) * Transform.rotate(ang, g.V(ax)) * Transform.rotate(spin, g.V([0., 0., 1.]))
    M = g.mm(g.m_translate(pos), g.mm(g.m_rotate(ang, ax), g.m_rotate(spin, [0., 0., 1.])))
    return T, M, "aimed(%s,%s,%s,%s)" % (pos, ang, ax, spin)


def mesh(c_, r, ctr, size, skin):
    """a closed or open box of triangles: (primitive, its triangles' references)"""
    c = [[x * r.uniform(.6, 1.), y * r.uniform(.6, 1.), z * r.uniform(.6, 1.)] for x in (-1., 1.) for y in (-1., 1.) for z in (-1., 1.)]
    faces = [(0, 1, 3, 2), (4, 6, 7, 5), (0, 4, 5, 1), (2, 3, 7, 6), (0, 2, 6, 4), (1, 5, 7, 3)]
    faces = r.sample(faces, r.choice([1, 3, 6]))
    idx = []
    for f in faces:
        idx += [f[0], f[1], f[2], f[0], f[2], f[3]]
    k = size * .7
    ax, ang = g.unit(r), r.uniform(-180, 180)
    T = Transform.translate(g.V(ctr)) * Transform.rotate(ang, g.V(ax)) * Transform.scale(k, k, k)
    M = g.mm(g.mm(g.m_translate(ctr), g.m_rotate(ang, ax)), g.m_scale([k, k, k]))
    ro = r.random() < .4
    W = T.inverse()
    prm = {'indices': idx, 'P': [g.P(q) for q in c]}
    N = None
    if r.random() < .5:
        c_.event("rounded")
        # rounded: a normal per corner
        tilt = r.choice([.2, .6, 1.])
        N = [g.nrm(g.add(g.nrm(q), g.mul(g.gunit(r), tilt * r.random()))) for q in c]
        prm['N'] = [g.N(q) for q in N]
    me = create_triangle_mesh(T, W, ro, prm)
    refs = [S.Ref("triangle", T, M, "mesh", ro, dict(P=[c[i] for i in idx[j:j + 3]])) for j in range(0, len(idx), 3)]
    for j, ref in enumerate(refs):
        ref.N = [N[i] for i in idx[3 * j:3 * j + 3]] if N else None
    return GeometricPrimitive(me, skin.mat, None), refs, dict(mesh=c, idx=idx, N=N, ctr=ctr, rot=[ang, ax], k=k, ro=ro)


def moved(r, prim, chain, ctr, size, moving, t0, t1):
    """wrap in an instance that keeps the thing near where it is"""
    def near():
        ax, ang = g.unit(r), r.choice([r.uniform(-60, 60), 180.])
        d = [r.gauss(0, .3 * size) for _ in range(3)]
        s = [1., 1., 1.]
        if not moving and r.random() < .4:
            s = [math.exp(r.uniform(-.4, .4)) for _ in range(3)]
        mc_ = g.mul(ctr, -1.)
        T = Transform.translate(g.V(g.add(ctr, d))) * Transform.rotate(ang, g.V(ax)) * Transform.scale(*s) * Transform.translate(g.V(mc_))
        M = g.mm(g.mm(g.m_translate(g.add(ctr, d)), g.m_rotate(ang, ax)), g.mm(g.m_scale(s), g.m_translate(mc_)))
        return T, M, [d, ang, ax, s]
    def still():
        return Transform(), g.ident(), "identity"
    T1, M1, d1 = near()
    if moving:
        T2, M2, d2 = near()
        if r.random() < .3:
            if r.random() < .5:
                T1, M1, d1 = still()
            else:
                T2, M2, d2 = still()
        w2p = AnimatedTransform(T1.inverse(), t0, T2.inverse(), t1)

        def place(t):
            if t <= t0:
                return M1
            if t >= t1:
                return M2
            return g.m_inv_affine([[float(x) for x in row] for row in w2p.interpolate(t).m])
        return TransformedPrimitive(prim, w2p), chain + [place], [d1, d2]
    w2p = AnimatedTransform(T1.inverse(), t0, T1.inverse(), t1)
    return TransformedPrimitive(prim, w2p), chain + [lambda t: M1], d1


class Fog(object):
    """absorption only, as a volume integrator: light is dimmed along the ray's own range"""

    def preprocess(self, scene, camera, renderer):
        pass

    def request_samples(self, sampler, sample, scene):
        pass

    def transmittance(self, scene, renderer, ray, sample, rng=None):
        return (-scene.vr.tau(ray)).exp()

    def li(self, scene, renderer, ray, sample, rng=None):
        return Spectrum(0.), self.transmittance(scene, renderer, ray, sample)


class World(object):
    """the reference: surfaces at one time, lamps, surroundings and fog"""

    def __init__(self, items, lamps, envs, fog, t):
        self.flats = [it.at(t) for it in items]
        self.lamps, self.envs, self.fog = lamps, envs, fog
        self.n = 0

    def dim(self, o, d, length):
        """share of the light that gets through the fog"""
        if self.fog is None:
            return [1.] * 3
        st, lo, hi, inv = self.fog
        O, D = g.m_pt(inv, o), g.m_vec(inv, d)
        a, b = 0., length
        for i in range(3):
            if abs(D[i]) < 1e-12:
                if not lo[i] <= O[i] <= hi[i]:
                    return [1.] * 3
                continue
            u, v = (lo[i] - O[i]) / D[i], (hi[i] - O[i]) / D[i]
            a, b = max(a, min(u, v)), min(b, max(u, v))
        if b <= a:
            return [1.] * 3
        return [math.exp(-s * (b - a)) for s in st]

    def first(self, o, d, tp):
        """(parameter, surface, whether sure) of the first surface along the ray"""
        self.n += 1
        lo, band = 5e-5 * tp, 4e-3 * tp
        all_ = []
        sure = True
        for w in self.flats:
            ts, close = w.hits(o, d, lo, math.inf)
            if close:
                sure = False
            all_ += [(t, i, w) for i, t in enumerate(ts)]
        if not all_:
            return None, None, sure
        all_.sort(key=lambda x: x[0])
        t, _, w = all_[0]
        if tp > 0 and t < band:
            sure = False
        if len(all_) > 1 and all_[1][0] - t < 1e-6 * (1 + t):
            sure = False
        return t, w, sure

    def blocked(self, p, d, dist, tp):
        """(whether something lies between, sure)"""
        self.n += 1
        lo = 5e-5 * tp
        sure, hit = True, False
        for w in self.flats:
            ts, close = w.hits(p, d, lo, dist)
            if close:
                sure = False
            for t in ts:
                if t < 4e-3 * tp or t > dist * (1 - 4e-3):
                    sure = False
                hit = True
        return hit, sure

    def sky(self, d):
        out, sure = BLACK, True
        for e in self.envs:
            f, near = e.profile(d)
            out = g.add(out, f)
            sure = sure and not near
        return out, sure

    def radiance(self, o, d, tp, bounces, split=True):
        """light arriving along the unit ray; bounces: specular steps still allowed"""
        t, w, sure = self.first(o, d, tp)
        if t is None:
            v, s2 = self.sky(d)
            return mul3(v, self.dim(o, d, math.inf)), sure and s2
        p = g.add(o, g.mul(d, t))
        q = g.m_pt(w.inv, p)
        n = w.out_normal(q)
        sk = w.skin
        out = BLACK
        wo = g.mul(d, -1.)
        if sk.kind == "glow":
            if g.dot(n, wo) > 0:
                out = sk.E
            if abs(g.dot(n, wo)) < 1e-6:
                sure = False
        else:
            ns, s2 = shading_normal(w, q, n)
            sure = sure and s2
            if sk.kind in ("diffuse", "uber"):
                out, s2 = self.lit(w, p, q, n, ns, wo, t)
                sure = sure and s2
            if sk.kind != "diffuse" and bounces > 0:
                v, s2 = self.bounce(sk, p, ns, d, t, bounces)
                out, sure = g.add(out, v), sure and s2
        return mul3(out, self.dim(o, d, t)), sure

    def bounce(self, sk, p, n, d, t, bounces):
        c = -g.dot(n, d)
        refl = g.add(d, g.mul(n, 2 * c))
        if sk.kind == "mirror":
            v, sure = self.radiance(p, g.nrm(refl), t, bounces - 1)
            return mul3(sk.kr, v), sure
        out, sure = BLACK, abs(c) > 1e-6
        if max(sk.kr) > 0:
            F = B.fr_dielectric(c, 1., sk.ior)
            v, s2 = self.radiance(p, g.nrm(refl), t, bounces - 1)
            sure = sure and s2
            out = mul3([F * x for x in sk.kr], v)
        if max(sk.kt) == 0:
            return out, sure
        F = B.fr_dielectric(c, 1., sk.tior)
        k = 1. / sk.tior if c > 0 else sk.tior
        m = n if c > 0 else g.mul(n, -1.)
        ca = abs(c)
        rad = 1. - k * k * (1. - ca * ca)
        if abs(rad) < 1e-6:
            sure = False
        if rad > 0:
            tr = g.add(g.mul(d, k), g.mul(m, k * ca - math.sqrt(rad)))
            v, s2 = self.radiance(p, g.nrm(tr), t, bounces - 1)
            sure = sure and s2
            out = g.add(out, mul3([(1 - F) * k * k * x for x in sk.kt], v))
        return out, sure

    def lit(self, w, p, q, n, ns, wo, t):
        x = Ctx(uv_of(w, q), p)
        f = w.skin.f(x)
        sure = x.sure
        a, b, _ = g.onb(ns)
        loc = lambda v: [g.dot(v, a), g.dot(v, b), g.dot(v, ns)]
        lo = loc(wo)
        no = g.dot(wo, n)
        if lo[2] * no <= 0.:
            # seen from behind the interpolated surface
            sure = False
        out = BLACK
        for lamp in self.lamps:
            if lamp.kind == "distant":
                wi, dist, E = lamp.wi, math.inf, lamp.I
            else:
                v = g.sub(lamp.pos, p)
                dist = g.ln(v)
                wi = g.mul(v, 1. / dist)
                pr, near = lamp.profile(g.mul(wi, -1.))
                sure = sure and not near
                E = [lamp.I[i] * pr[i] / dist ** 2 for i in range(3)]
            li = loc(wi)
            if max(E) == 0.:
                continue
            if abs(li[2]) < 1e-6 or (g.dot(wi, n) * no > 0) != (li[2] * lo[2] > 0):
                sure = False
            if g.dot(wi, n) * no <= 0.:
                continue
            hid, s2 = self.blocked(p, wi, dist, t)
            sure = sure and s2
            if hid:
                continue
            E = mul3(E, self.dim(p, wi, dist))
            k = f(lo, li)
            out = g.add(out, [k[i] * E[i] * abs(li[2]) for i in range(3)])
        return out, sure


def ray_of(cam, s):
    o, d, _ = cam.ray(s)
    M = cam.matrix(s[4])
    return g.m_pt(M, o), g.nrm(g.m_vec(M, d))


@contextlib.contextmanager
def folder():
    d = tempfile.mkdtemp(prefix="p44-")
    try:
        yield d
    finally:
        shutil.rmtree(d)


def scene(c, r, cam, t, family, folder_, moving, t0, t1):
    """(pytracer scene, volume integrator, reference world)"""
    res = cam.res
    items, prims, desc = [], [], []
    D0 = math.exp(r.uniform(.5, 2.2))
    if cam.kind == "env":
        span = D0
    else:
        pts = []
        for s in ([0., 0.], [float(res[0]), 0.], [0., float(res[1])]):
            o, d = ray_of(cam, s + [.5, .5, t])
            pts.append(g.add(o, g.mul(d, D0)))
        span = max(g.ln(g.sub(pts[1], pts[0])), g.ln(g.sub(pts[2], pts[0])))
    centres, eyes = [], []
    kinds = ["glow", "glow", "mirror", "glass"] if family == "glow" else ["glow", "glow", "mirror"] if family == "path" else ["diffuse", "diffuse", "diffuse", "mirror", "glass", "uber"]
    n = r.choice([1, 2, 3, 4, 5])
    for i in range(n):
        o, d = ray_of(cam, [r.uniform(0, res[0]), r.uniform(0, res[1]), .5, .5, t])
        far = r.choice([1., r.uniform(.7, 1.5), r.uniform(1., 2.)])
        ctr = g.add(o, g.mul(d, D0 * far))
        size = span * r.uniform(.15, .6) * min(1., far)
        kind = r.choice(kinds) if i or family == "path" else kinds[0]
        skin = Skin(r, kind)
        if kind != "glow" and r.random() < .25:
            prim, refs, info = mesh(c, r, ctr, size, skin)
        else:
            ref = faced(r, fitted(r, ctr, size), o, kind)
            prim, refs, info = GeometricPrimitive(ref.shape, skin.mat, skin.light(ref)), [ref], ref.info
        chain = []
        hist = []
        for _ in range(r.choice([0, 0, 0, 1, 1, 2])):
            if r.random() < .3 or len(refs) > 1 and not chain:
                prim = build(r, r.choice(METHODS), [prim])
            prim, chain, h = moved(r, prim, chain, ctr, size, moving and r.random() < .7, t0, t1)
            hist.append(h)
        prims.append(prim)
        items += [Item(x, skin, chain) for x in refs]
        desc.append([skin.name, info, hist])
        centres.append(ctr)
        eyes.append(o)
        c.event(kind)
        if hist:
            c.event("instanced")
    if r.random() < .4:
        # something large behind
        skin = Skin(r, kinds[0])
        o, d = ray_of(cam, [res[0] / 2., res[1] / 2., .5, .5, t])
        ref = faced(r, fitted(r, g.add(o, g.mul(d, 2.2 * D0)), 1.5 * max(span, D0), r.choice(["disk", "sphere", "triangle"])), o, skin.kind)
        prims.append(GeometricPrimitive(ref.shape, skin.mat, skin.light(ref)))
        items.append(Item(ref, skin, []))
        desc.append(["back", skin.name, ref.info])
    lights, lamps, envs = [], [], []
    if family == "lamp":
        for _ in range(r.choice([1, 2, 3, 4]) if not SUB.get('one') else 1):
            kind = r.choice(["point", "point", "spot", "distant", "gonio", "projection"])
            for _ in range(8):
                k = r.randrange(len(centres))
                aim, eye = centres[k], eyes[k]
                if kind == "distant":
                    lit = LT.Lit(r, kind, folder_)
                    if g.dot(lit.wi, g.sub(eye, aim)) > 0 or r.random() < .3:
                        break
                    continue
                lit = LT.Lit(r, kind, folder_, place=aimed(r, aim, eye, D0))
                pr, _ = lit.profile(g.nrm(g.sub(aim, lit.pos)))
                if max(pr) > 0:
                    break
            lamps.append(lit)
            lights.append(lit.light)
            desc.append(lit.info)
            c.event(kind)
    else:
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            lit = LT.Lit(r, "infinite", folder_)
            envs.append(lit)
            lights.append(lit.light)
            desc.append(lit.info)
            c.event("surroundings")
    vol = fog = vr = None
    if r.random() < .25:
        T, M, d = g.rigid(r, 0.)
        mid = r.choice(centres)
        T, M = Transform.translate(g.V(mid)) * T, g.mm(g.m_translate(mid), M)
        lo = [-r.uniform(.2, 1.2) * D0 for _ in range(3)]
        hi = [r.uniform(.2, 1.2) * D0 for _ in range(3)]
        st = [r.uniform(0, .7) / D0 for _ in range(3)]
        vr = HomogeneousVolumeDensity(sp(st), sp(BLACK), 0., sp(BLACK), geo.BBox(g.P(lo), g.P(hi)), T)
        fog, vol = (st, lo, hi, g.m_inv_affine(M)), Fog()
        desc.append(["fog", mid, d, lo, hi, st])
        c.event("fog")
    order = list(range(len(prims)))
    r.shuffle(order)
    how = r.choice(METHODS)
    agg = build(r, how, [prims[i] for i in order], lazy=r.random() < .3)
    # emitting shapes are lights too
    lights = lights + [p.get_area_light() for p in prims if isinstance(p, GeometricPrimitive) and p.get_area_light() is not None]
    r.shuffle(lights)
    return Scene(agg, lights, vr), vol, World(items, lamps, envs, fog, t), desc + [how]


def refilter(r, p):
    """the same filter with a moderate width"""
    p['xw'] = r.choice([.5, .5, .5, 1., r.uniform(.55, 1.6)])
    p['yw'] = p['xw'] if r.random() < .5 else r.choice([.5, 1., r.uniform(.55, 1.6)])
    k, w = p['kind'], (p['xw'], p['yw'])
    return {"box": lambda: FL.BoxFilter(*w), "tri": lambda: FL.TriangleFilter(*w), "gauss": lambda: FL.GaussianFilter(*w, p['alpha']),
            "mitchell": lambda: FL.MitchellFilter(p['B'], p['C'], *w), "lanczos": lambda: FL.LanczosSincFilter(*w, p['tau'])}[k](), p


def one(c, family):
    r = c.rng
    SUB['one'] = False
    with folder() as fd:
        xr, yr = r.randint(1, 9), r.randint(1, 9)
        moving = r.random() < .45
        nx, ny = (1, 1) if moving or r.random() < .5 else r.choice([(2, 1), (1, 2), (2, 2), (3, 1)])
        name = os.path.join(fd, "out.png")
        crop = [0., 1., 0., 1.]
        if r.random() < .2:
            a, b = sorted([r.random(), r.random()])
            e, f = sorted([r.random(), r.random()])
            crop = [a, b, e, f]
        x0, x1 = math.ceil(xr * crop[0]), max(math.ceil(xr * crop[0]) + 1, math.ceil(xr * crop[1]))
        y0, y1 = math.ceil(yr * crop[2]), max(math.ceil(yr * crop[2]) + 1, math.ceil(yr * crop[3]))
        if x1 > xr or y1 > yr:
            return
        filt, one_, fp = p20.make(r, r.choice(["box", "box", "tri", "gauss", "mitchell", "lanczos"]))
        filt, fp = refilter(r, fp)
        wx, wy = fp['xw'], fp['yw']
        tab = [[one_((i + .5) / p19.T * wx, wx) * one_((j + .5) / p19.T * wy, wy) for i in range(p19.T)] for j in range(p19.T)]
        c.event("filter-" + fp['kind'])
        film = ImageFilm(xr, yr, filt, crop, name)
        full = (x0, y0, x1, y1) == (0, 0, xr, yr)
        if not full:
            PIL.Image.fromarray(np.zeros((yr, xr, 3), dtype='uint8') + 7, mode="RGB").save(name, 'PNG')
        while True:
            cam = rand_cam(r, r.choice(["persp", "persp", "ortho", "env"]), film=film)
            if cam.moving and nx * ny > 1 and not moving:
                continue
            if (cam.lens == 0. or nx * ny == 1) and (moving or not cam.moving):
                break
        ext = [int(v) for v in film.get_sample_extent()]
        smp = StratifiedSampler(ext[0], ext[1], ext[2], ext[3], nx, ny, False, cam.shutter[0], cam.shutter[1])
        t = .5 * (cam.shutter[0] + cam.shutter[1])
        t0, t1 = cam.shutter[0] - r.choice([0., r.random()]), cam.shutter[1] + r.choice([0., r.random()])
        # what the integrator may do
        depth = r.choice([1, 2, 3, 3, 4, 5])
        if family == "path":
            depth = r.choice([0, 1, 2, 3])
            it, bounces = PathIntegrator(depth), depth
        else:
            k = r.random()
            if k < .45:
                it, bounces = WhittedIntegrator(depth), depth - 1
            elif k < .85 or family == "glow":
                it, bounces = DirectLightingIntegrator(LightStrategy.SAMPLE_ALL_UNIFORM, depth), depth - 1
            else:
                SUB['one'] = True
                if k < .92:
                    it, bounces = DirectLightingIntegrator(LightStrategy.SAMPLE_ONE_UNIFORM, depth), depth - 1
                else:
                    it, bounces = PathIntegrator(0), 0
        sc, vol, world, desc = scene(c, r, cam, t, family, fd, moving, t0, t1)
        c.note(res=[xr, yr], crop=crop, filter=fp, spp=[nx, ny], camera=cam.desc, shutter=cam.shutter, times=[t0, t1],
               integrator=[type(it).__name__, depth], scene=desc)
        c.sig(xr, yr, cam.desc, desc, fp)
        # ---- the picture
        ren = SamplerRenderer(smp, cam.cam, it, vol)
        tiles = r.random() < .35
        if tiles:
            it.preprocess(sc, cam.cam, ren)
            orig = Sample(smp, it, vol, sc)
            n = r.choice([2, 3, 4, 7])
            order = list(range(n))
            r.shuffle(order)
            for i in order:
                sub = smp.get_subsampler(i, n)
                SamplerRendererTask(sc, ren, cam.cam, sub, orig, False, i, n)()
            out = film.write_image()
            c.event("tiles")
        else:
            out = ren.render(sc)
        c.require(os.path.exists(name), "stored", "no picture was stored")
        with PIL.Image.open(name) as pic:
            img = np.array(pic.convert('RGB')).astype(float)
        c.check(img.shape == (yr, xr, 3), "size", "the picture has another size", got=img.shape)
        # ---- what it must show
        acc = [[[0., 0., 0., 0., 0.] for _ in range(xr)] for _ in range(yr)]
        sure = [[True] * xr for _ in range(yr)]
        for py in range(ext[2], ext[3]):
            for px in range(ext[0], ext[1]):
                for j in range(ny):
                    for i in range(nx):
                        sx, sy = px + (i + .5) / nx, py + (j + .5) / ny
                        A, Bq = p19.spread(sx, wx, x0, x1), p19.spread(sy, wy, y0, y1)
                        if A is None or Bq is None:
                            # rounding decides the weight
                            for qy in range(y0, y1):
                                for qx in range(x0, x1):
                                    if abs(qx + .5 - sx) <= wx + 1e-6 and abs(qy + .5 - sy) <= wy + 1e-6:
                                        sure[qy][qx] = False
                            continue
                        near = [(qx, qy, tab[jy][ix]) for qy, jy in Bq if y0 <= qy < y1 for qx, ix in A if x0 <= qx < x1]
                        if not near:
                            continue
                        o, d = ray_of(cam, [sx, sy, .5, .5, t])
                        v, ok = world.radiance(o, d, 0., bounces)
                        for qx, qy, wt in near:
                            if not ok:
                                sure[qy][qx] = False
                            for q in range(3):
                                acc[qy][qx][q] += v[q] * wt
                            acc[qy][qx][3] += wt
                            acc[qy][qx][4] += abs(wt)
        for qy in range(y0, y1):
            for qx in range(x0, x1):
                e = acc[qy][qx]
                if e[4] > 0 and abs(e[3]) < .05 * e[4]:
                    # lobes of the filter cancel
                    sure[qy][qx] = False
        judge(c, img, acc, sure, x0, x1, y0, y1, full)
        c.event("rays", world.n)


def judge(c, img, acc, sure, x0, x1, y0, y1, full):
    cells = [(x, y) for y in range(y0, y1) for x in range(x0, x1)]
    want = {}
    for x, y in cells:
        n = acc[y][x][3]
        want[x, y] = [max(0., v / n) if n else 0. for v in acc[y][x][:3]]
    known = [q for q in cells if sure[q[1]][q[0]]]
    if not known:
        return
    top, best = max((max(want[q]), q) for q in known)
    if len(known) == len(cells):
        if top == 0.:
            if any(v != 0. for x, y in cells for v in acc[y][x][:3]):
                # only the filter's negative lobes see light: what is left is rounding
                return
            c.check(all(float(v) == 0. for x, y in cells for v in img[y, x]), "black", "a picture of darkness is not black")
            c.event("dark")
            return
        if top < .02:
            return
        lo = hi = 255. / top
    else:
        if top < .02:
            return
        k = max(range(3), key=lambda i: want[best][i])
        got = float(img[best[1], best[0], k])
        # brightness is set by a pixel that is not judged
        if got < 48:
            return
        lo, hi = (got - 1.1) / top, (got + 1.1) / top
        hi = min(hi, 255. / top)
    bad = []
    for x, y in known:
        for i in range(3):
            g_, v = float(img[y, x, i]), want[x, y][i]
            if g_ < v * lo - 1.25 or g_ > v * hi + .25 + (1. if hi > lo else 0.):
                bad.append([x, y, i, g_, v * lo, v * hi])
    c.check(not bad, "pixels", "the picture does not show the scene", bad=bad[:5], n=len(bad), known=len(known))
    c.event("pixels", len(known))
    c.event("unjudged", len(cells) - len(known))
    if any(max(want[q]) > 0 for q in known) and len(set(tuple(round(v, 6) for v in want[q]) for q in known)) > 1:
        c.event("varied")


@task(quick=120, thorough=2000, min_events=100)
def glow(c):
    """emitting shapes and surroundings seen directly, in mirrors and through glass"""
    one(c, "glow")


@task(quick=150, thorough=2000, min_events=100)
def lamp(c):
    """surfaces lit by lamps, with shadows, seen directly, in mirrors and through glass"""
    one(c, "lamp")


@task(quick=60, thorough=800, min_events=50)
def path(c):
    """the path integrator among mirrors"""
    one(c, "path")
