"""P42 queries are pure"""
import os
import sys
import math
import random
import shutil
import tempfile
import threading
import contextlib
from core import tasklist
import gen as g
import shapes as S
import lights as LT
import bxdfs as B
import render as R
import numpy as np
import pytracer
import pytracer.geometry as geo
import pytracer.light as L
import pytracer.material
import pytracer.montecarlo as mc
import pytracer.texture.texture as tt
import pytracer.texture.texturemap as tm
from pytracer import Spectrum
from pytracer.spectral.spectrum import SampledSpectrum, RGBSpectrum
from pytracer.transform import Transform, AnimatedTransform
from pytracer.reflection import BSDFSample, BDFType
from pytracer.light import LightSample
from pytracer.montecarlo import Distribution1D, Distribution2D
from pytracer.filter.filter import BoxFilter, TriangleFilter, GaussianFilter, MitchellFilter, LanczosSincFilter
from pytracer.texture.utility import ImageWrap, MIPMap
from pytracer.texture.texture.image import ImageTexture
from pytracer.shape import create_triangle_mesh
from pytracer.aggregate import GeometricPrimitive, TransformedPrimitive, SimpleAggregate, GridAccel, BVH, Intersection
from pytracer.scene import Scene
from pytracer.sampler import CameraSample
from pytracer.volume.volume import AggregateVolume
from checks import p16, p21, p24, p27, p30, p32, p35, p36

TASKS, task = tasklist()
RULE = ("every kind of object the library builds (shapes, aggregates, instances, transforms, boxes, lights, lobes, materials, textures, media, cameras, tables, filters, "
        "spectra, integrators), asked the same questions again after other questions, in other orders, after the earlier answers were overwritten by the caller, "
        "and by several threads at once; distinct by object and question")
ASSUMPTIONS = ["a traced ray may be shortened and the intersection record filled: those are answers",
               "a constant texture may hand out its value itself: only its repeated answers are compared"]
PI = math.pi
DG = ["p", "dpdu", "dpdv", "dndu", "dndv", "nn", "u", "v", "dpdx", "dpdy", "dudx", "dudy", "dvdx", "dvdy"]
RAY = ["o", "d", "mint", "maxt", "time", "depth", "has_differentials", "rxOrigin", "ryOrigin", "rxDirection", "ryDirection"]


def canon(x, depth=0):
    """a bit-exact, comparable description"""
    if x is None or isinstance(x, (str, bool)):
        return x
    if isinstance(x, (int, float)):
        return "nan" if x != x else float(x)
    if isinstance(x, np.generic):
        return canon(x.item())
    if isinstance(x, np.ndarray):
        return [type(x).__name__, list(x.shape)] + [canon(v) for v in np.array(x).ravel().tolist()]
    if isinstance(x, (list, tuple)):
        return [canon(v, depth + 1) for v in x]
    if isinstance(x, geo.BBox):
        return ["BBox", canon(x.pMin), canon(x.pMax)]
    if isinstance(x, geo.Ray):
        return ["Ray"] + [canon(getattr(x, f, None)) for f in RAY]
    if isinstance(x, geo.DifferentialGeometry):
        return ["dg"] + [canon(getattr(x, f)) for f in DG]
    if isinstance(x, Transform):
        return ["T", canon(x.m), canon(x.m_inv)]
    if isinstance(x, Intersection):
        return ["isect", canon(x.dg), id(x.primitive), canon(x.w2o), canon(x.o2w), canon(getattr(x, 'rEps', None))]
    if isinstance(x, CameraSample):
        return ["cs", canon([x.imageX, x.imageY, x.lens_u, x.lens_v, x.time])]
    return type(x).__name__


def scribble(x):
    """overwrite an answer, as a caller that owns it may"""
    if isinstance(x, np.ndarray):
        try:
            x[...] = 7.5
        except ValueError:
            pass
    elif isinstance(x, (list, tuple)):
        for v in x:
            scribble(v)
    elif isinstance(x, geo.BBox):
        scribble([x.pMin, x.pMax])
    elif isinstance(x, geo.Ray):
        scribble([getattr(x, f, None) for f in RAY])
        x.mint, x.maxt, x.time = 3., 4., 5.
    elif isinstance(x, geo.DifferentialGeometry):
        scribble([getattr(x, f) for f in DG])
        x.u = x.v = 8.
    elif isinstance(x, Intersection):
        scribble(x.dg)


class Q(object):
    """a question: fn(*args) with fresh arguments each time; `fills` are arguments that are part of the answer, `keep` answers that may be shared"""

    def __init__(self, name, fn, mk, fills=(), keep=False):
        self.name, self.fn, self.mk, self.fills, self.keep = name, fn, mk, fills, keep

    def ask(self, spoil=False):
        args = self.mk()
        before = [canon(a) for a in args]
        v = self.fn(*args)
        out = canon([v] + [args[i] for i in self.fills])
        after = [canon(a) for a in args]
        spoiled = [i for i in range(len(args)) if i not in self.fills and before[i] != after[i]]
        if spoil and not self.keep:
            scribble(v)
            for i in self.fills:
                scribble(args[i])
            for a in args:      # the caller reuses its arguments, too
                scribble(a)
        return out, spoiled


def environment():
    st = np.random.get_state()
    pst = random.getstate()
    return [hash(st[1].tobytes()), st[2:], hash(pst), sorted(np.geterr().items()), os.getcwd(),
            [(k, v) for k, v in sorted(vars(pytracer).items()) if isinstance(v, (int, float, str))]]


# ------------------------------------------------------------ objects and questions
def ray_mk(o, d, mint, maxt, time=0., diff=False):
    def mk():
        x = geo.RayDifferential(g.P(o), g.V(d), mint, maxt, 0, time)
        if diff:
            x.has_differentials = True
            x.rxOrigin, x.ryOrigin = g.P(g.add(o, [.01, 0, 0])), g.P(g.add(o, [0, .01, 0]))
            x.rxDirection, x.ryDirection = g.V(g.add(d, [.01, 0, 0])), g.V(g.add(d, [0, .01, .01]))
        return [x]
    return mk


def pt(r, s=3.):
    p = g.vec3(r, s)
    return lambda: [g.P(p)]


def join(*mks):
    return lambda: [x for m in mks for x in m()]


def const(*vals):
    return lambda: list(vals)


def f_shape(r, env):
    ref = S.rand_shape(r)
    s = ref.shape
    out = [Q("shape.world_bound", s.world_bound, const()), Q("shape.object_bound", s.object_bound, const())]
    for _ in range(3):
        rm = ray_mk(*S.aimed_ray(r, ref))
        out.append(Q("shape.intersect", s.intersect, rm))
        out.append(Q("shape.intersect_p", s.intersect_p, rm))
    out.append(Q("shape.area", s.area, const()))
    u = [r.random(), r.random()]
    out.append(Q("shape.sample", s.sample, const(*u)))
    far = g.add(g.m_pt(ref.M, [0, 0, 0]), g.mul(g.unit(r), 9 * ref.size * ref.scale))
    out.append(Q("shape.sample_p", s.sample_p, join(lambda: [g.P(far)], const(*u))))
    wi = g.nrm(g.sub(ref.world(*ref.rand_uv(r)), far))
    out.append(Q("shape.pdf_p", s.pdf_p, lambda: [g.P(far), g.V(wi)]))
    return out


def f_mesh(r, env):
    T, M, _ = g.affine(r)
    v, f = p24.solid(r)[:2]
    prm = {'indices': [k for t in f for k in t], 'P': [g.P(q) for q in v]}
    if r.random() < .5:
        prm['uv'] = [r.random() for _ in range(2 * len(v))]
    if r.random() < .5:
        prm['N'] = [g.N(g.nrm(q)) for q in v]
    mesh = create_triangle_mesh(T, T.inverse(), r.random() < .5, prm)
    tris = mesh.refine()
    t = r.choice(list(tris))
    w = [g.m_pt(M, v[k]) for k in r.choice(f)]
    b = [r.random() + .1 for _ in range(3)]
    tgt = [sum(b[i] * w[i][k] for i in range(3)) / sum(b) for k in range(3)]
    o = g.add(tgt, g.mul(g.unit(r), 5.))
    rm = ray_mk(o, g.sub(tgt, o), 0., math.inf)
    out = [Q("mesh.world_bound", mesh.world_bound, const()), Q("mesh.object_bound", mesh.object_bound, const())]
    for t in list(tris)[:4]:
        out += [Q("triangle.intersect", t.intersect, rm), Q("triangle.intersect_p", t.intersect_p, rm),
                Q("triangle.world_bound", t.world_bound, const()), Q("triangle.area", t.area, const()),
                Q("triangle.sample", t.sample, const(r.random(), r.random()))]

        def shading(ray, t=t):
            hit, th, ep, dg = t.intersect(ray)
            return None if not hit else t.get_shading_geometry(t.o2w, dg)
        out.append(Q("triangle.shading", shading, rm))
    return out


def f_aggregate(r, env):
    refs = [S.rand_shape(r) for _ in range(r.randrange(2, 6))]
    prims = []
    for ref in refs:
        p = GeometricPrimitive(ref.shape, R.matte([.5] * 3), None)
        if r.random() < .4:
            (A, MA, _, t0), (C, MC, _, t1) = g.motion(r)
            if r.random() < .5:
                C = A
            p = TransformedPrimitive(p, AnimatedTransform(A, t0, C, t1))
        prims.append(p)
    kind = r.choice(["simple", "grid", "bvh"])
    a = SimpleAggregate(prims, True) if kind == "simple" else GridAccel(prims, True) if kind == "grid" else BVH(prims)
    sc = Scene(a, [], p32.region(r, 0)[0] if r.random() < .4 else None)
    out = [Q(kind + ".world_bound", a.world_bound, const()), Q("scene.world_bound", sc.world_bound, const())]
    for _ in range(4):
        rm = ray_mk(*(S.aimed_ray(r, r.choice(refs)) + (r.random(),)))
        out.append(Q(kind + ".intersect", a.intersect, lambda rm=rm: rm() + [Intersection()], fills=(0, 1)))
        out.append(Q(kind + ".intersect_p", a.intersect_p, rm))
        out.append(Q("scene.intersect", sc.intersect, lambda rm=rm: rm() + [Intersection()], fills=(0, 1)))
        out.append(Q("scene.intersect_p", sc.intersect_p, rm))
    for p in prims:
        rm = ray_mk(*(S.aimed_ray(r, r.choice(refs)) + (r.random(),)))
        n = type(p).__name__
        out.append(Q(n + ".intersect", p.intersect, lambda rm=rm: rm() + [Intersection()], fills=(0, 1)))
        out.append(Q(n + ".intersect_p", p.intersect_p, rm))
        out.append(Q(n + ".world_bound", p.world_bound, const()))
    return out


def f_transform(r, env):
    T, M, _ = g.affine(r)
    U, MU, _ = g.affine(r)
    lo = g.vec3(r)
    hi = g.add(lo, [r.random() for _ in range(3)])
    box = lambda: [geo.BBox(g.P(lo), g.P(hi))]
    v = g.vec3(r)
    n = g.unit(r)
    out = [Q("transform(point)", T, pt(r)), Q("transform(vector)", T, lambda: [g.V(v)]), Q("transform(normal)", T, lambda: [g.N(n)]),
           Q("transform(ray)", T, ray_mk(v, n, 0., 5., .3, True)), Q("transform(box)", T, box), Q("transform.inverse", T.inverse, const(), keep=True),
           Q("transform*transform", lambda: T * U, const(), keep=True), Q("has_scale", T.has_scale, const()),
           Q("swaps", T.swaps_handedness, const()), Q("is_identity", T.is_identity, const())]
    (A, _, _, t0), (C, _, _, t1) = g.motion(r)
    a = AnimatedTransform(A, t0, C, t1)
    for t in [t0 + (t1 - t0) * x for x in (0., 1., .5, r.random(), r.uniform(-.5, 1.5))]:
        out.append(Q("animated.interpolate", a.interpolate, const(t), keep=True))
        out.append(Q("animated(t, point)", a, join(const(t), pt(r))))
        out.append(Q("animated(t, vector)", a, join(const(t), lambda: [g.V(v)])))
        out.append(Q("animated(ray)", a, ray_mk(v, n, 0., 5., t, True)))
    out.append(Q("animated.motion_bounds", a.motion_bounds, box))
    return out


def f_box(r, env):
    lo = g.vec3(r)
    hi = g.add(lo, [r.random() * 3 for _ in range(3)])
    b = geo.BBox(g.P(lo), g.P(hi))
    p, q = g.vec3(r), g.vec3(r)
    other = lambda: [geo.BBox(g.P(p), g.P(q))]
    d = g.unit(r)
    U = geo.BBox.Union
    return [Q("Union(box, box)", lambda x: U(b, x), other), Q("Union(box, point)", lambda x: U(b, x), lambda: [g.P(p)]), Q("overlaps", b.overlaps, other),
            Q("inside", b.inside, lambda: [g.P(p)]), Q("surface_area", b.surface_area, const()), Q("volume", b.volume, const()),
            Q("maximum_extent", b.maximum_extent, const()), Q("lerp", b.lerp, const(r.random(), r.random(), r.random())),
            Q("offset", b.offset, lambda: [g.P(p)]), Q("bounding_sphere", b.bounding_sphere, const()),
            Q("box.intersect_p", b.intersect_p, ray_mk(p, d, 0., r.choice([math.inf, 3.]))), Q("from_bbox", geo.BBox.from_bbox, other),
            Q("coordinate_system", geo.coordinate_system, lambda: [g.V(d)]), Q("normalize", geo.normalize, lambda: [g.V(p)]),
            Q("face_forward", geo.face_forward, lambda: [g.N(d), g.V(p)])]


def f_light(r, env):
    k = r.choice(["point", "spot", "projection", "gonio", "distant", "infinite", "area", "area"])
    b = p24.scene(r)
    if k == "area":
        ref = S.rand_shape(r, place=g.rigid)
        I = LT.colour(r)
        light = L.DiffuseAreaLight(ref.o2w, LT.spec(I), 1, ref.shape)
        out = [Q("area.l", light.l, lambda p=g.vec3(r), n=g.unit(r), w=g.unit(r): [g.P(p), g.N(n), g.V(w)], keep=True) for _ in range(2)]
    else:
        light = LT.Lit(r, k, env).light
        out = []
    for _ in range(3):
        u = [r.random() for _ in range(3)]
        p, w, o = g.vec3(r), g.unit(r), [r.random(), r.random()]

        def pull(v):
            """sample_l: radiance, direction, density, and what the visibility tester asks"""
            le, wi, pdf, vis = v
            return [le, wi, pdf, vis.ray]
        out.append(Q(k + ".sample_l", lambda p, t, ls: pull(light.sample_l(p, 1e-4, ls, t)), lambda p=p, u=u: [g.P(p), .3, LightSample(*u)]))
        out.append(Q(k + ".pdf", light.pdf, lambda p=p, w=w: [g.P(p), g.V(w)]))
        out.append(Q(k + ".le", light.le, ray_mk(p, w, 0., math.inf, 0., True)))
        out.append(Q(k + ".sample_r", lambda ls, a, c, t: light.sample_r(b, ls, a, c, t), lambda u=u, o=o: [LightSample(*u)] + o + [.4]))
    out.append(Q(k + ".power", lambda: light.power(b), const()))
    out.append(Q(k + ".is_delta", light.is_delta_light, const()))
    return out


def f_lobe(r, env):
    out = []
    for _ in range(2):
        lobe = B.any_smooth(r) if r.random() < .7 else (B.mirror(r) if r.random() < .5 else B.glass(r))
        b = lobe.obj
        n = type(b).__name__
        for _ in range(2):
            wo, wi, u = B.direction(r), B.direction(r), [r.random(), r.random()]
            out.append(Q(n + ".f", b.f, lambda wo=wo, wi=wi: [g.V(wo), g.V(wi)]))
            out.append(Q(n + ".pdf", b.pdf, lambda wo=wo, wi=wi: [g.V(wo), g.V(wi)]))
            out.append(Q(n + ".sample_f", b.sample_f, lambda wo=wo, u=u: [g.V(wo)] + u))
    return out


def f_material(r, env):
    m, ref, desc, texs = p36.rand_mat(r)
    out = []
    for _ in range(2):
        s0 = r.getrandbits(40)
        wo, wi, u = g.unit(r), g.unit(r), [r.random(), r.random(), r.random()]
        mk = lambda s0=s0: [p36.frame_dg(random.Random(s0))[0], p36.frame_dg(random.Random(s0))[0]]

        def whole(dg, dgs, wo, wi, m=m, u=u):
            b = m.get_bsdf(dg, dgs)
            first = [b.f(wo, wi, BDFType.ALL), b.pdf(wo, wi, BDFType.ALL), b.n_components(BDFType.ALL)]
            pdf, w, t, f = b.sample_f(wo, BSDFSample(*u), BDFType.ALL)
            again = [b.f(wo, wi, BDFType.ALL), b.pdf(wo, wi, BDFType.ALL), b.n_components(BDFType.ALL)]
            if canon(again) != canon(first):
                return ["bsdf answers change", first, again]
            return first + [f, w, pdf, t]
        out.append(Q("material.get_bsdf", whole, join(mk, lambda wo=wo, wi=wi: [g.V(wo), g.V(wi)])))

        def sub(dg, dgs, m=m):
            b = m.get_bssrdf(dg, dgs)
            return None if b is None else [b.eta, b.sig_a, b.sigp_s]
        if desc.startswith("subsurface"):
            out.append(Q("material.get_bssrdf", sub, mk, keep=True))
    return out


def f_surface(r, env):
    """materials on shapes, asked for through hits: same places seen from other sides, with other footprints"""
    refs = [S.rand_shape(r) for _ in range(2)]
    prims = []
    for ref in refs:
        m = p36.rand_mat(r)[0]
        if r.random() < .6:
            T = g.affine(r)[0]
            mp2 = tm.UVMapping2D(*[r.uniform(1, 3) for _ in range(4)])
            img, _ = LT.image(r)
            path = LT.save(img, env, "surf%d.png" % r.getrandbits(40))
            a, b = p30.leaf(r, True)[0], p30.leaf(r, True)[0]
            t = r.choice([ImageTexture(Spectrum, RGBSpectrum, mp2, path, r.random() < .5, 8., r.choice(list(ImageWrap)), 1., 1.),
                          tt.Chekcerboard2DTexture(mp2, a, b, "closedform"), tt.MarbleTexture(6, .5, 1., .2, tm.IdentityMapping3D(T))])
            m = pytracer.material.MatteMaterial(t, tt.ConstantTexture(r.choice([0., 20.])), None)
        prims.append(GeometricPrimitive(ref.shape, m, None))
    (A, _, _, t0), (C, _, _, t1) = g.motion(r)
    tops = prims + [TransformedPrimitive(prims[0], AnimatedTransform(A, t0, C, t1)), BVH(prims)]
    out = []
    for ref, own in zip(refs, prims):
        o, d, _, _ = S.aimed_ray(r, ref, miss=0.)
        for w in (1e-4, .02, .3):
            for back in (0., r.uniform(.1, 3.)):
                def mk(o=g.sub(o, g.mul(d, back)), d=d, w=w * ref.size * ref.scale, t=r.random()):
                    x = geo.RayDifferential(g.P(o), g.V(d), 0., math.inf, 0, t)
                    x.has_differentials = True
                    x.rxOrigin, x.ryOrigin = g.P(g.add(o, [w, 0, 0])), g.P(g.add(o, [0, w, w]))
                    x.rxDirection, x.ryDirection = g.V(d), g.V(d)
                    return [x]
                wi, u = g.unit(r), [r.random() for _ in range(3)]

                def shade(ray, pr, wi=wi, u=u, wo=g.mul(g.nrm(d), -1.)):
                    it = Intersection()
                    if not pr.intersect(ray, it):
                        return None
                    b = it.get_bsdf(ray)
                    wi, wo = g.V(wi), g.V(wo)
                    return [b.f(wo, wi, BDFType.ALL), b.pdf(wo, wi, BDFType.ALL), b.n_components(BDFType.ALL), list(b.sample_f(wo, BSDFSample(*u), BDFType.ALL))]
                for pr in r.sample(tops, 2) + [own]:
                    out.append(Q("hit.get_bsdf", lambda ray, pr=pr, shade=shade: shade(ray, pr), mk, fills=(0,)))
    return out


def f_texture(r, env):
    T, M, _ = g.affine(r)
    col = r.random() < .5
    cst = lambda: p30.leaf(r, col)[0]
    mp2 = r.choice([tm.UVMapping2D(*[r.uniform(-2, 2) for _ in range(4)]), tm.SphericalMapping2D(T), tm.CylindricalMapping2D(T),
                    tm.PlannarMapping2D(g.V(g.vec3(r)), g.V(g.vec3(r)), r.random(), r.random())])
    mp3 = tm.IdentityMapping3D(T)
    a, b = cst(), cst()
    ts = [("const", a), ("scale", tt.ScaleTexture(a, b)), ("mix", tt.MixTexture(a, b, tt.ConstantTexture(r.random()))),
          ("bilerp", tt.BilerpTexture(mp2, *[p30.value(r, col)[0] for _ in range(4)])), ("uv", tt.UVTexture(mp2)),
          ("dots", tt.DotsTexture(mp2, a, b)), ("checker2", tt.Chekcerboard2DTexture(mp2, a, b, r.choice(["none", "closedform"]))),
          ("checker3", tt.Checkboard3DTexture(mp3, a, b)), ("fbm", tt.FBmTexture(r.randrange(1, 9), r.random(), mp3)),
          ("wrinkled", tt.WrinkledTexture(r.randrange(1, 9), r.random(), mp3)), ("windy", tt.WindyTexture(mp3)),
          ("marble", tt.MarbleTexture(r.randrange(1, 9), r.random(), 1., .2, mp3))]
    img, kind = LT.image(r)
    path = LT.save(img, env, "tex%d.png" % r.getrandbits(40))
    ts.append(("image", ImageTexture(Spectrum, RGBSpectrum, mp2, path, r.random() < .5, 8., r.choice(list(ImageWrap)), 1., 1.)))
    out = []
    for n, t in ts:
        s0 = r.getrandbits(40)
        out.append(Q("texture." + n, t, lambda s0=s0: [p30.hit(random.Random(s0))], keep=n in ("const", "dots", "checker2", "checker3")))
    # the pyramid below an image, of colours or of numbers
    for n, typ in (("colours", RGBSpectrum), ("numbers", float)):
        h, w = 1 << r.randrange(4), 1 << r.randrange(4)
        rng = np.random.RandomState(r.getrandbits(31))
        mm = MIPMap(typ, rng.rand(h, w, 3) if typ is RGBSpectrum else rng.rand(h, w), r.random() < .5, 8., r.choice(list(ImageWrap)))
        for k in (2, 3, 6):
            q = [r.uniform(-.5, 1.5), r.uniform(-.5, 1.5)] + [r.choice([0., 1e-3, .1, .7, 3.]) * r.choice([1., -1.] if k == 6 else [1.]) for _ in range(k - 2)]
            out.append(Q("pyramid.%s.%d" % (n, k), mm.look_up, lambda q=q: [list(q)]))
    s0 = r.getrandbits(40)
    out.append(Q("mapping2", mp2, lambda: [p30.hit(random.Random(s0))]))
    out.append(Q("mapping3", mp3, lambda: [p30.hit(random.Random(s0))]))
    return out


def f_medium(r, env):
    rs = [p32.region(r, r.randrange(3)) for _ in range(2)]
    agg = AggregateVolume([x[0] for x in rs])
    out = []
    for v, (_, M, info, _) in [(rs[0][0], rs[0]), (agg, rs[1])]:
        n = type(v).__name__
        for _ in range(2):
            o, d, mint, maxt = p32.ray_for(r, M, info)[:4]
            p = g.m_pt(M, [r.uniform(a, b) for a, b in zip(info['lo'], info['hi'])])
            w, x = g.unit(r), g.unit(r)
            a3 = lambda p=p, w=w: [g.P(p), g.V(w), .2]
            out += [Q(n + ".sigma_a", v.sigma_a, a3, keep=True), Q(n + ".sigma_s", v.sigma_s, a3, keep=True), Q(n + ".sigma_t", v.sigma_t, a3),
                    Q(n + ".lve", v.lve, a3, keep=True), Q(n + ".p", v.p, lambda p=p, w=w, x=x: [g.P(p), g.V(w), g.V(x), .2]),
                    Q(n + ".tau", v.tau, join(ray_mk(o, d, mint, maxt), const(.5, .3))), Q(n + ".intersect_p", v.intersect_p, ray_mk(o, d, mint, maxt)),
                    Q(n + ".world_bound", v.world_bound, const())]
    return out


def f_camera(r, env):
    cam = p21.rand_cam(r)
    out = []
    for _ in range(4):
        x, y, lu, lv, t = p21.rand_sample(r, cam)

        def mk(x=x, y=y, lu=lu, lv=lv, t=t):
            s = CameraSample(x, y)
            s.lens_u, s.lens_v, s.time = lu, lv, t
            return [s]
        out.append(Q(cam.kind + ".generate_ray", cam.cam.generate_ray, mk))
        if cam.kind != "pinhole":
            out.append(Q(cam.kind + ".differential", cam.cam.generate_ray_differential, mk))
    return out


def f_table(r, env):
    d1 = Distribution1D(np.array(p16.table(r, r.randrange(1, 20))))
    nu = r.randrange(1, 6)
    d2 = Distribution2D(np.array([p16.table(r, nu) for _ in range(r.randrange(1, 6))]))
    out = []
    for _ in range(3):
        u, v = r.random(), r.random()
        out += [Q("table1.sample_cont", d1.sample_cont, const(u)), Q("table1.sample_dis", d1.sample_dis, const(v)),
                Q("table2.sample_cont", d2.sample_cont, const(u, v)), Q("table2.pdf", d2.pdf, const(u, v))]
        out += [Q(n, getattr(mc, n), const(u, v)) for n in ("concentric_sample_disk", "uniform_sample_sphere", "uniform_sample_hemisphere",
                                                            "cosine_sample_hemisphere", "uniform_sample_triangle") if hasattr(mc, n)]
    return out


def f_filter(r, env):
    x, y = r.uniform(.5, 4), r.uniform(.5, 4)
    fs = [BoxFilter(x, y), TriangleFilter(x, y), GaussianFilter(x, y, r.uniform(.1, 3)), MitchellFilter(x, y, r.random(), r.random()),
          LanczosSincFilter(x, y, r.uniform(1, 4))]
    return [Q(type(f).__name__, f, const(r.uniform(-x, x), r.uniform(-y, y))) for f in fs for _ in range(2)]


def f_spectrum(r, env):
    out = []
    Spectrum.init()
    SampledSpectrum.init()
    for C in (Spectrum, SampledSpectrum):
        a, b = [r.uniform(-1, 3) for _ in range(3)], [r.uniform(.1, 3) for _ in range(3)]
        s = lambda a=a, C=C: [C.from_rgb(np.array(a))]
        two = join(s, lambda b=b, C=C: [C.from_rgb(np.array(b))])
        nm = C.__name__
        out += [Q(nm + "+", lambda x, y: x + y, two), Q(nm + "*", lambda x, y: x * y, two), Q(nm + "/", lambda x, y: x / y, two), Q(nm + "-", lambda x, y: x - y, two),
                Q(nm + "*k", lambda x: x * 2.5, s), Q(nm + ".lerp", lambda x, y: x.lerp(.3, y), two), Q(nm + ".sqrt", lambda x: x.sqrt(), join(lambda b=b, C=C: [C.from_rgb(np.array(b))])),
                Q(nm + ".exp", lambda x: x.exp(), s), Q(nm + ".clip", lambda x: x.clip(0., 1.), s), Q(nm + ".y", lambda x: x.y(), s), Q(nm + ".to_rgb", lambda x: x.to_rgb(), s),
                Q(nm + ".to_xyz", lambda x: x.to_xyz(), s), Q(nm + ".is_black", lambda x: x.is_black(), s)]
    return out


def f_integrator(r, env):
    """small scenes: radiance with a replayed generator"""
    prims, lights = [], []
    for _ in range(r.randrange(2, 5)):
        ref = S.rand_shape(r, place=g.rigid)
        k = r.random()
        sh = ref.shape
        mat = p36.rand_mat(r)[0] if k < .5 else R.matte([.6, .5, .4])
        light = None
        if r.random() < .3:
            light = L.DiffuseAreaLight(ref.o2w, LT.spec(LT.colour(r)), 1, sh)
            lights.append(light)
        prims.append((GeometricPrimitive(sh, mat, light), ref))
    while len(lights) < 2:
        lights.append(LT.Lit(r, r.choice(["point", "spot", "distant", "infinite", "gonio"]), env).light)
    sc = Scene(R.agg([p for p, _ in prims], r), lights, None)
    kind = r.choice(p27.KINDS)
    it = p27.integ(kind, r.randrange(1, 4))
    sm = R.Smp()
    it.request_samples(None, sm, sc)
    ren = R.Ren(it)
    out = []
    for _ in range(3):
        ref = r.choice(prims)[1]
        o, d = S.aimed_ray(r, ref, .1)[:2]
        s0, s1, t = r.getrandbits(40), r.getrandbits(40), r.random()

        def li(ray, s0=s0, s1=s1, t=t):
            x = R.Smp(t)
            x.n1D, x.n2D = list(sm.n1D), list(sm.n2D)
            x.fill(random.Random(s0))
            was = canon([x.oneD, x.twoD])
            v = ren.li(sc, ray, x, Intersection(), R.Rng(s1))
            if canon([x.oneD, x.twoD]) != was:
                return "sample changed"
            return list(v)
        out.append(Q(kind + ".li", li, ray_mk(o, g.nrm(d), 0., math.inf, t, r.random() < .5), fills=(0,)))
    return out


def f_subdiv(r, env):
    T, M, _ = g.affine(r)
    _, v, f = p35.control(r)
    lv = r.choice([0, 0, 1, 1, 2] if len(f) <= 12 else [0, 1])
    s = p35.run_loop(r, v, f, lv, T, r.random() < .3)

    def refine():
        m = s.refine()[0]
        return [[np.array(p) for p in m.p], [np.array(n) for n in m.n], [int(i) for i in m.vertexIndex]]
    return [Q("subdiv.world_bound", s.world_bound, const()), Q("subdiv.object_bound", s.object_bound, const()), Q("subdiv.refine", refine, const())]


def f_measured(r, env):
    Spectrum.init()
    path = os.path.join(env, "m%d.brdf" % r.randrange(10 ** 9))
    wl, rows = p36.table(r)
    p36.write(r, path, wl, rows)
    m = pytracer.material.MeasuredMaterial(path)
    dg = p36.frame_dg(r)[0]
    b = m.get_bsdf(dg, dg)
    out = []
    for _ in range(3):
        wo, wi, u = g.unit(r), g.unit(r), [r.random(), r.random(), r.random()]
        out.append(Q("measured.f", b.f, lambda wo=wo, wi=wi: [g.V(wo), g.V(wi), BDFType(BDFType.ALL)]))

        def smp(w, b=b, u=u):
            pdf, w, t, f = b.sample_f(w, BSDFSample(*u), BDFType.ALL)
            return [pdf, w, f]
        out.append(Q("measured.sample_f", smp, lambda wo=wo: [g.V(wo)]))
    return out


FAMILIES = dict(surface=f_surface, subdiv=f_subdiv, measured=f_measured, shape=f_shape, mesh=f_mesh, aggregate=f_aggregate, transform=f_transform, box=f_box, light=f_light, lobe=f_lobe, material=f_material, texture=f_texture,
                medium=f_medium, camera=f_camera, table=f_table, filter=f_filter, spectrum=f_spectrum, integrator=f_integrator)
NAMES = sorted(FAMILIES)


@contextlib.contextmanager
def folder():
    d = tempfile.mkdtemp(prefix="p42-")
    try:
        yield d
    finally:
        shutil.rmtree(d)


def gather(c, n):
    r = c.rng
    qs = []
    fams = [NAMES[c.index % len(NAMES)]] + [r.choice(NAMES) for _ in range(n - 1)]
    with folder() as d:
        with contextlib.redirect_stdout(open(os.devnull, "w")):
            for f in fams:
                x = FAMILIES[f](r, d)
                c.event("objects:" + f)
                qs += x
    c.note(families=fams)
    return qs


def judge(c, q, base, got, mech, msg):
    out, spoiled = got
    c.check(out == base[0], mech + ":" + q.name, msg, question=q.name, got=out, want=base[0])
    c.check(not spoiled, "arguments", "asking changed an argument", question=q.name, which=spoiled)


@task(quick=390, thorough=9000, min_events=50000)
def again(c):
    """ask, ask in other orders, ask after the answers were overwritten"""
    r = c.rng
    qs = gather(c, 2)
    env = environment()
    base = []
    for q in qs:
        base.append(q.ask())
        c.check(not base[-1][1], "arguments", "asking changed an argument", question=q.name, which=base[-1][1])
        c.sig(q.name, base[-1][0])
    for mech, spoil in (("repeat", True), ("overwritten", True), ("overwritten", False)):
        order = list(range(len(qs)))
        r.shuffle(order)
        for i in order:
            judge(c, qs[i], base[i], qs[i].ask(spoil), mech,
                  "asked again, the answer differs" if mech == "repeat" else "asked after callers overwrote their answers, the answer differs")
    c.check(environment() == env, "environment", "asking drew random numbers or changed a setting")


@task(quick=60, thorough=1200, min_events=4000)
def threads(c):
    """the same questions asked by several threads at once"""
    r = c.rng
    qs = gather(c, 2)
    base = [q.ask() for q in qs]
    orders = []
    for _ in range(4):
        o = list(range(len(qs)))
        r.shuffle(o)
        orders.append(o)
    got = [[] for _ in orders]
    errors = []

    def work(k):
        try:
            for i in orders[k]:
                got[k].append((i, qs[i].ask()))
        except Exception as e:
            errors.append(repr(e))
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        ts = [threading.Thread(target=work, args=(k,)) for k in range(len(orders))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    c.check(not errors, "thread-error", "a question failed when asked concurrently", errors=errors[:3])
    c.sig([q.name for q in qs], base[0][0])
    for res in got:
        for i, v in res:
            judge(c, qs[i], base[i], v, "concurrent", "asked by several threads, the answer differs")
