"""P45 nothing depends on the units of length and light: every world against its exact twin in other units"""
import math
import os
import random
import shutil
import tempfile
import PIL.Image
import numpy as np
from core import tasklist
import gen as g
import shapes as S
import bxdfs as B
import lights as LT
import render as R
import pytracer.geometry as geo
import pytracer.light as L
from pytracer import Spectrum
from pytracer.transform import Transform, AnimatedTransform
from pytracer.shape import create_triangle_mesh, Disk, Sphere
from pytracer.aggregate import GeometricPrimitive, TransformedPrimitive, SimpleAggregate, GridAccel, BVH, Intersection
from pytracer.camera import OrthoCamera, PerspectiveCamera, EnvironmentCamera
from pytracer.renderer import SamplerRenderer
from pytracer.light import LightSample
from pytracer.sampler import CameraSample, StratifiedSampler
from pytracer.scene import Scene
from pytracer.film import ImageFilm
from pytracer.filter.filter import BoxFilter, TriangleFilter, GaussianFilter, MitchellFilter
from pytracer.integrator import compute_light_sampling_cdf
from checks import p21, p27

TASKS, task = tasklist()
RULE = ("shapes, meshes, instances, accelerators, cameras, lamps, the choice among lamps, films, rendered pictures and whole lit worlds, each built twice, once in units of length 2^j times smaller or larger "
        "(j from -10 to 10, so that the twin's coordinates are exact), lamps also in other units of brightness (2^-40 to 2^40); distinct by world and factors")
ASSUMPTIONS = ["worlds lit by emitting shapes are only compared with smaller units (coordinates up to 2^10 times larger): the query whether a direction meets "
               "the emitter starts a fixed 1e-5 away from the point",
               "meshes do not ask for the discarding of degenerate texture coordinates, whose test for an empty triangle is a fixed area"]


def factor(r, lo=-10, hi=10):
    while True:
        j = r.randint(lo, hi)
        if j:
            return 2. ** j


def conj(T, k):
    m, mi = np.array(T.m, dtype=float), np.array(T.m_inv, dtype=float)
    m[:3, 3] *= k
    mi[:3, 3] *= k
    return Transform(m, mi)


def twin(ref, k):
    """the shape of ref in other units"""
    p = dict(ref.prm)
    for x in ("r", "z0", "z1", "h", "ri"):
        if x in p:
            p[x] = p[x] * k
    if "P" in p:
        p["P"] = [[x * k for x in q] for q in p["P"]]
    M = [list(row) for row in ref.M]
    for i in range(3):
        M[i][3] *= k
    return S.Ref(ref.kind, conj(ref.o2w, k), M, "", ref.ro, p).shape


def ray(o, d, mint, maxt, k, t=0., diff=None):
    x = geo.RayDifferential(g.P([a * k for a in o]), g.V(d), mint * k, maxt * k, 0, t)
    if diff:
        x.has_differentials = True
        x.rxOrigin, x.ryOrigin = g.P([(a + b) * k for a, b in zip(o, diff[0])]), g.P([(a + b) * k for a, b in zip(o, diff[1])])
        x.rxDirection, x.ryDirection = g.V(g.add(d, diff[2])), g.V(g.add(d, diff[3]))
    return x


def dg_list(dg, k):
    """what a hit reports, in base units"""
    s = lambda v: [float(x) / k for x in v]
    return ([float(dg.u), float(dg.v)] + s(dg.p) + s(dg.dpdu) + s(dg.dpdv) + g.lst(dg.nn) + g.lst(dg.dndu) + g.lst(dg.dndv))


def alike(c, a, b, mech, msg, tol=1e-9, **kw):
    a, b = np.array(a, dtype=float), np.array(b, dtype=float)
    bad = ~((a == b) | (np.abs(a - b) <= tol * (1 + np.abs(a) + np.abs(b))) | (np.isnan(a) & np.isnan(b)))
    c.check(not bad.any(), mech, msg, base=a, twin=b, **kw)


def box(b, k):
    return [float(x) / k for x in list(b.pMin) + list(b.pMax)]


@task(quick=1500, thorough=40000, min_events=400)
def shape(c):
    r = c.rng
    ref = S.rand_shape(r)
    k = factor(r)
    c.note(k=k, **ref.info)
    c.sig(ref.info, k)
    A, Z = ref.shape, twin(ref, k)
    alike(c, box(A.world_bound(), 1.), box(Z.world_bound(), k), "world-bound", "world bound does not scale")
    alike(c, box(A.object_bound(), 1.), box(Z.object_bound(), k), "object-bound", "object bound does not scale")
    alike(c, float(A.area()), float(Z.area()) / k / k, "area", "area does not scale")
    for _ in range(3):
        o, d, mint, maxt = S.aimed_ray(r, ref)
        diff = [[r.gauss(0, .01) for _ in range(3)] for _ in range(4)]
        ra, rz = ray(o, d, mint, maxt, 1., diff=diff), ray(o, d, mint, maxt, k, diff=diff)
        c.check(bool(A.intersect_p(ra)) == bool(Z.intersect_p(rz)), "occludes", "only one of the twins blocks the ray", ray=[o, d, mint, maxt])
        a, z = A.intersect(ra), Z.intersect(rz)
        if not c.check(bool(a[0]) == bool(z[0]), "hit", "only one of the twins is hit", ray=[o, d, mint, maxt]):
            continue
        if a[0]:
            c.event("hit")
            alike(c, [float(a[1]), float(a[2])], [float(z[1]) / k, float(z[2]) / k], "distance", "distance or its error does not scale")
            alike(c, dg_list(a[3], 1.), dg_list(z[3], k), "geometry", "differential geometry does not scale", tol=1e-8)
            for x, y in ((a, ra), (z, rz)):
                x[3].compute_differential(y)
            alike(c, [a[3].dudx, a[3].dvdx, a[3].dudy, a[3].dvdy] + g.lst(a[3].dpdx) + g.lst(a[3].dpdy),
                  [z[3].dudx, z[3].dvdx, z[3].dudy, z[3].dvdy] + [float(x) / k for x in list(z[3].dpdx) + list(z[3].dpdy)],
                  "footprint", "footprint does not scale", tol=1e-7)
    u = [r.random(), r.random()]
    (pa, na), (pz, nz) = A.sample(*u), Z.sample(*u)
    alike(c, g.lst(pa) + g.lst(na), [float(x) / k for x in pz] + g.lst(nz), "sample", "sampled point does not scale")
    alike(c, float(A.pdf(pa)), float(Z.pdf(pz)) * k * k, "pdf", "area density does not scale")
    if k > 1:
        q = g.m_pt(ref.M, g.mul(g.unit(r), r.uniform(1.2, 5) * ref.size))
        (pa, na), (pz, nz) = A.sample_p(g.P(q), *u), Z.sample_p(g.P(g.mul(q, k)), *u)
        alike(c, g.lst(pa) + g.lst(na), [float(x) / k for x in pz] + g.lst(nz), "sample_p", "point sampled as seen from a place does not scale", tol=1e-7)
        w = g.V(g.nrm(g.sub(g.lst(pa), q)))
        fa, fz = float(A.pdf_p(g.P(q), w)), float(Z.pdf_p(g.P(g.mul(q, k)), w))
        alike(c, fa, fz, "pdf_p", "density as seen from a place depends on the unit", tol=1e-6)


def prims(r, n):
    """parts of a world: function of the unit giving primitives, and things to aim at"""
    parts, refs = [], []
    for _ in range(n):
        x = r.random()
        if x < .2:
            nv = r.randrange(4, 9)
            P = [[r.gauss(0, 1.5) for _ in range(3)] for _ in range(nv)]
            idx = [i for _ in range(r.randrange(1, 7)) for i in r.sample(range(nv), 3)]
            T, M, _ = g.affine(r)
            ro = r.random() < .5

            def mesh(k, T=T, P=P, idx=idx, ro=ro):
                W = conj(T, k)
                return GeometricPrimitive(create_triangle_mesh(W, W.inverse(), ro, {'indices': list(idx), 'P': [g.P(g.mul(p, k)) for p in P]}), R.matte([.5] * 3), None)
            parts.append(mesh)
            continue
        ref = S.rand_shape(r)
        refs.append(ref)
        if x < .45:
            (A, _, _, t0), (C, _, _, t1) = g.motion(r)

            def moving(k, ref=ref, A=A, C=C, t0=t0, t1=t1):
                return TransformedPrimitive(GeometricPrimitive(twin(ref, k), R.matte([.5] * 3), None), AnimatedTransform(conj(A, k), t0, conj(C, k), t1))
            parts.append(moving)
        else:
            parts.append(lambda k, ref=ref: GeometricPrimitive(twin(ref, k), R.matte([.5] * 3), None))
    while not refs:
        ref = S.rand_shape(r)
        refs.append(ref)
        parts.append(lambda k, ref=ref: GeometricPrimitive(twin(ref, k), R.matte([.5] * 3), None))
    return parts, refs


@task(quick=120, thorough=4000, min_events=150)
def accelerators(c):
    r = c.rng
    parts, refs = prims(r, r.choice([1, 2, 4, 7, 11]))
    k = factor(r)
    kind = r.choice(["simple", "grid", "bvh"])
    c.note(k=k, kind=kind, shapes=[x.info for x in refs])
    c.sig(kind, k, [x.info for x in refs])
    both = []
    for f in (1., k):
        ps = [p(f) for p in parts]
        a = SimpleAggregate(ps, True) if kind == "simple" else GridAccel(ps, True) if kind == "grid" else BVH(ps)
        both.append((f, a, Scene(a, [], None)))
    alike(c, box(both[0][1].world_bound(), 1.), box(both[1][1].world_bound(), k), "bounds", "bound of the aggregate does not scale")
    for _ in range(6):
        o, d, mint, maxt = S.aimed_ray(r, r.choice(refs))
        t = r.uniform(-1, 3)
        got = []
        for f, a, sc in both:
            x = ray(o, d, mint, maxt, f, t)
            it = Intersection()
            p = bool(a.intersect_p(ray(o, d, mint, maxt, f, t)))
            h = bool(sc.intersect(x, it))
            got.append([p, h] + ([float(x.maxt) / f, float(it.rEps) / f] + dg_list(it.dg, f) if h else []))
        if got[0][1]:
            c.event("hit." + kind)
        if c.check(got[0][:2] == got[1][:2], "hit", "only one of the twins is hit or blocks", ray=[o, d, mint, maxt, t], base=got[0][:2], twin=got[1][:2]) and got[0][1]:
            alike(c, got[0][2:], got[1][2:], "record", "hit record does not scale", tol=1e-7)


@task(quick=400, thorough=10000, min_events=600)
def cameras(c):
    r = c.rng
    k = factor(r)
    kind = r.choice(["persp", "ortho"])
    film = p21.Film(r.randrange(1, 400), r.randrange(1, 400))
    a = r.uniform(.2, 3)
    win = [-a, a * r.uniform(.5, 2), -r.uniform(.2, 3), r.uniform(.2, 3)]
    lens, focal, fov = r.choice([0., r.uniform(.001, .5)]), math.exp(r.uniform(-1, 3)), r.uniform(5, 150)
    (T1, _, d1, t0), (T2, _, d2, t1) = g.motion(r)
    c.note(k=k, kind=kind, win=win, lens=lens, focal=focal, fov=fov, keys=[d1, d2])
    c.sig(k, kind, win, lens, focal)
    cams = []
    for f in (1., k):
        A = AnimatedTransform(conj(T1, f), t0, conj(T2, f), t1)
        cams.append(PerspectiveCamera(A, list(win), 0., 1., lens * f, focal * f, fov, film) if kind == "persp" else
                    OrthoCamera(A, [x * f for x in win], 0., 1., lens * f, focal * f, film))
    for _ in range(2):
        s = [r.uniform(0, film.xResolution), r.uniform(0, film.yResolution), r.random(), r.random(), r.uniform(t0 - .2, t1 + .2)]
        got = []
        for f, cam in zip((1., k), cams):
            w, x = cam.generate_ray_differential(CameraSample(*s))
            sc = lambda v: [float(y) / f for y in v]
            got.append([float(w)] + sc(x.o) + g.lst(x.d) + sc(x.rxOrigin) + sc(x.ryOrigin) + g.lst(x.rxDirection) + g.lst(x.ryDirection) + [x.mint, x.time])
        c.event(kind + (".lens" if lens else ""))
        alike(c, got[0], got[1], "rays", "camera rays do not scale", tol=1e-6)


def lamps(r, n, emitters):
    """lamps as functions of the unit"""
    out = []
    for _ in range(n):
        kind = r.choice(["point", "point", "spot", "distant", "infinite"])
        T = g.rigid(r)[0]
        I = [r.uniform(.5, 20.) for _ in range(3)]
        w, fo, di = r.uniform(20, 120), r.uniform(.1, .9), g.unit(r)

        def mk(k, b=1., kind=kind, T=T, I=[x for x in I], w=w, fo=fo, di=di):
            I = [x * b for x in I]
            W, J = conj(T, k), LT.spec([x * k * k for x in I])
            if kind == "point":
                return L.PointLight(W, J)
            if kind == "spot":
                return L.SpotLight(W, J, w, w * fo)
            if kind == "distant":
                return L.DistantLight(W, LT.spec(I), g.V(di))
            return L.InfiniteAreaLight(W, LT.spec(I), 1)
        out.append((kind, mk))
    return out


@task(quick=200, thorough=6000, min_events=150)
def light(c):
    r = c.rng
    parts, refs = prims(r, 2)
    k = factor(r)
    (kind, mk), = lamps(r, 1, False)
    area = r.random() < .3
    if area:
        k, kind = 2. ** r.randint(1, 10), "area"
        ref = S.rand_shape(r, place=g.rigid)
        I = [r.uniform(.5, 20.) for _ in range(3)]

        def mk(f, b=1.):
            return L.DiffuseAreaLight(conj(ref.o2w, f), LT.spec([x * b for x in I]), 1, twin(ref, f))
    bright = 2. ** r.randint(-40, 40)
    c.note(k=k, kind=kind, bright=bright)
    c.sig(kind, k, [x.info for x in refs])
    both = []
    for f in (1., k):
        li = mk(f, 1. if f == 1. else bright)
        both.append((f, li, Scene(SimpleAggregate([p(f) for p in parts], True), [li], None)))
    u = [r.random() for _ in range(3)]
    p, w, v = g.vec3(r), g.unit(r), [r.random(), r.random()]
    got, power, out = [], [], []
    for f, li, sc in both:
        b = 1. if f == 1. else bright
        le, wi, pdf, vis = li.sample_l(g.P(g.mul(p, f)), 1e-3 * f, LightSample(*u), .3)
        x = vis.ray
        got.append([y / b for y in B.vals(le)] + g.lst(wi) + [float(pdf), float(x.time), float(li.pdf(g.P(g.mul(p, f)), wi)) if kind in ("area", "infinite") else 0.]
                   + [float(y) / f for y in x.o] + g.lst(x.d)
                   # the segment in lengths: directions to a point may be whole segments or unit vectors
                   + [float(x.mint) * g.ln(g.lst(x.d)) / f, float(x.maxt) * g.ln(g.lst(x.d)) / f])
        power.append([y / f / f / b for y in B.vals(li.power(sc))])
        rr, n, pd, L_ = li.sample_r(sc, LightSample(*u), v[0], v[1], .4)
        out.append((kind, L_ / b, rr, n, pd, f))
    c.event("lamp." + kind)
    a, z = got
    norm = lambda x: x[:12] + (g.nrm(x[12:15]) if g.ln(x[12:15]) > 0 else x[12:15]) + x[15:]   # whole segments or unit directions
    alike(c, norm(a), norm(z), "sample", "light sample depends on the unit", tol=1e-6)
    alike(c, power[0], power[1], "power", "power does not scale", tol=1e-6)
    beams = []
    for kd, L_, rr, n, pd, f in out:
        vals = B.vals(L_)
        scale = f * f if kd in ("distant", "area", "infinite") else 1.
        vals = [y if kd in ("distant", "area", "infinite") else y / f / f for y in vals]
        beams.append(vals + [float(y) / f for y in rr.o] + g.lst(rr.d) + [float(pd) * scale])
    alike(c, beams[0], beams[1], "emitted", "emitted ray does not scale", tol=1e-6)


@task(quick=150, thorough=4000, min_events=100)
def choice(c):
    """lights are chosen alike whatever the unit of their brightness and of length"""
    r = c.rng
    parts, refs = prims(r, 2)
    k, b = factor(r), 2. ** r.randint(-40, 40)
    lit = lamps(r, r.randrange(1, 6), False)
    c.note(k=k, bright=b, lamps=[n for n, _ in lit])
    c.sig(k, b, [x.info for x in refs])
    ds = []
    for f in (1., k):
        ps = [p(f) for p in parts]
        ls = [mk(f, 1. if f == 1. else b) for _, mk in lit]
        ds.append(compute_light_sampling_cdf(Scene(SimpleAggregate(ps, True), ls, None)))
    for _ in range(8):
        u = r.random()
        (i, p), (j, q) = ds[0].sample_dis(u), ds[1].sample_dis(u)
        c.check(int(i) == int(j), "chosen", "another light is chosen in other units", u=u, got=[int(i), int(j)])
        alike(c, float(p), float(q), "probability", "the probability of a light depends on the units", tol=1e-6)
    c.event("lights%d" % len(lit))


@task(quick=120, thorough=3000, min_events=100)
def picture(c):
    """a picture is relative to its brightest pixel: in other units of brightness it is the same file"""
    r = c.rng
    xr, yr = r.randrange(1, 9), r.randrange(1, 9)
    flt = r.choice([lambda: BoxFilter(r.uniform(.3, 1.5), r.uniform(.3, 1.5)), lambda: TriangleFilter(r.uniform(.3, 2), r.uniform(.3, 2)),
                    lambda: GaussianFilter(r.uniform(.5, 2), r.uniform(.5, 2), 2.), lambda: MitchellFilter(1 / 3., 1 / 3., r.uniform(.5, 2), r.uniform(.5, 2))])()
    b = 2. ** r.randint(-60, 60)
    smp = [(r.uniform(-.5, xr + .5), r.uniform(-.5, yr + .5), [math.exp(r.gauss(0, 1)) for _ in range(3)], r.random() < .2) for _ in range(r.randrange(1, 40))]
    c.note(bright=b, size=[xr, yr], filter=type(flt).__name__, n=len(smp))
    c.sig(b, smp)
    out = []
    d = tempfile.mkdtemp(prefix="p45-")
    try:
        for f in (1., b):
            film = ImageFilm(xr, yr, flt, [0., 1., 0., 1.], os.path.join(d, "a.png"))
            for x, y, v, splat in smp:
                (film.splat if splat else film.add_sample)(CameraSample(x, y), Spectrum.from_rgb([a * f for a in v]))
            film.write_image()
            with PIL.Image.open(os.path.join(d, "a.png")) as pic:
                out.append(np.array(pic).astype(int))
    finally:
        shutil.rmtree(d)
    c.event(type(flt).__name__)
    c.check(out[0].shape == out[1].shape and int(np.abs(out[0] - out[1]).max()) <= 1, "file", "the picture of a dimmer or brighter world differs",
            base=out[0].tolist(), twin=out[1].tolist())


def rendered(c, r, worlds, bright):
    """the same small picture of both worlds"""
    xr, yr = r.randrange(1, 4), r.randrange(1, 4)
    W = Transform.look_at(g.P([r.gauss(0, 3), r.gauss(0, 3), r.uniform(3, 7)]), g.P([0., 0., -.5]), g.V([.3, 1., .1])).inverse()
    fov, seed = r.uniform(30, 80), r.getrandbits(30)
    kind = r.choice(["persp", "env"])
    out = []
    d = tempfile.mkdtemp(prefix="p45-")
    try:
        for f, sc, it, sm, ren in worlds:
            film = ImageFilm(xr, yr, BoxFilter(.5, .5), [0., 1., 0., 1.], os.path.join(d, "a.png"))
            A = AnimatedTransform(conj(W, f), 0., conj(W, f), 1.)
            cam = PerspectiveCamera(A, [-1., 1., -1., 1.], 0., 1., 0., 1., fov, film) if kind == "persp" else EnvironmentCamera(A, 0., 1., film)
            np.random.seed(seed)
            SamplerRenderer(StratifiedSampler(0, xr, 0, yr, 1, 1, False, 0., 1.), cam, it, None).render(sc)
            with PIL.Image.open(os.path.join(d, "a.png")) as pic:
                out.append(np.array(pic).astype(int))
    finally:
        shutil.rmtree(d)
    c.event("rendered")
    c.check(out[0].shape == out[1].shape and int(np.abs(out[0] - out[1]).max()) <= 1, "rendered", "the rendered picture depends on the unit of length or light",
            base=out[0].tolist(), twin=out[1].tolist(), size=[xr, yr], camera=kind, fov=fov)


@task(quick=280, thorough=6000, min_events=600)
def transport(c):
    """radiance in lit worlds full of narrow gaps, replaying the generator"""
    r = c.rng
    emitters = r.random() < .35
    k = 2. ** r.randint(1, 10) if emitters else factor(r)
    lit = lamps(r, r.choice([1, 1, 2, 3]), False)
    # a floor, things hovering closely above it, a wall behind
    F = Transform.translate(g.V([0., 0., -1.])) * Transform.rotate(r.uniform(-25, 25), g.V(g.unit(r)))
    gap = 10 ** r.uniform(-3.5, -.5)
    mats = []
    for _ in range(6):
        x = r.random()
        mats.append(R.matte([r.uniform(.2, .9) for _ in range(3)]) if x < .5 or not mats else R.Mat([B.any_smooth(r, 100.).obj]) if x < .7 else
                    R.Mat([B.mirror(r).obj]) if x < .85 else R.Mat([B.glass(r).obj], 1.))
    things = [("disk", F, dict(h=0., r=6., ri=0., pm=360.), mats[0])]
    for i in range(r.randrange(1, 4)):
        s = math.exp(r.uniform(-1, .3))
        q = [r.gauss(0, 1), r.gauss(0, 1)]
        if r.random() < .5:
            things.append(("sphere", F * Transform.translate(g.V(q + [s + gap])), dict(r=s, z0=-s, z1=s, pm=360.), mats[1 + i]))
        else:
            things.append(("disk", F * Transform.translate(g.V(q + [gap])), dict(h=0., r=s, ri=0., pm=360.), mats[1 + i]))
    em = None
    if emitters:
        em = (r.choice(["sphere", "disk", "mesh"]), r.uniform(.2, 1.), Transform.translate(g.V([r.gauss(0, 2), r.gauss(0, 2), r.uniform(2, 4)])) * Transform.rotate(180. + r.uniform(-30, 30), g.V([1., 0., 0.])),
              [r.uniform(1, 20) for _ in range(3)])
    use = r.choice([SimpleAggregate, GridAccel, BVH])
    kind, depth, sigma = r.choice(p27.KINDS), r.randrange(1, 5), r.choice([0., 0., r.uniform(.02, .3)])
    bright = r.choice([1., 2. ** r.randint(-40, 40)])
    c.note(k=k, bright=bright, gap=gap, kind=kind, depth=depth, lamps=[n for n, _ in lit], emitter=em and em[0], use=use.__name__, sigma=sigma)
    c.sig(k, gap, kind, depth, q, s)
    worlds = []
    for f in (1., k):
        ps, ls = [], []
        for sh, T, prm, m in things:
            ps.append(GeometricPrimitive(twin(S.Ref(sh, T, [[float(x) for x in row] for row in T.m], "", False, prm), f), m, None))
        for _, mk in lit:
            ls.append(mk(f, 1. if f == 1. else bright))
        if em:
            rr = em[1]
            prm = dict(r=rr, z0=-rr, z1=rr, pm=360.) if em[0] == "sphere" else dict(h=0., r=rr, ri=0., pm=360.)
            if em[0] == "mesh":
                W = conj(em[2], f)
                sh = create_triangle_mesh(W, W.inverse(), False, {'indices': [0, 1, 2, 0, 2, 3], 'P': [g.P([x * f, y * f, 0.]) for x, y in
                                                                                                   ((-rr, -rr), (rr, -rr), (rr, rr), (-rr, rr))]})
            else:
                sh = twin(S.Ref(em[0], em[2], [[float(x) for x in row] for row in em[2].m], "", False, prm), f)
            al = L.DiffuseAreaLight(conj(em[2], f), LT.spec([x * (1. if f == 1. else bright) for x in em[3]]), 1, sh)
            ls.append(al)
            ps.append(GeometricPrimitive(sh, mats[5], al))
        agg = BVH(ps) if use is BVH else use(ps, True)
        sc = Scene(agg, ls, None)
        it = p27.integ(kind, depth)
        sm = R.Smp()
        it.request_samples(None, sm, sc)
        worlds.append((f, sc, it, sm, R.Ren(it, sigma / f)))
    if r.random() < .25:
        rendered(c, r, worlds, bright)
    for _ in range(5):
        # aim at the floor near a thing, from above
        tgt = g.lst(F(g.P([q[0] + r.gauss(0, s), q[1] + r.gauss(0, s), r.choice([0., gap, s])])))
        o = g.add(tgt, g.mul(g.nrm([r.gauss(0, .7), r.gauss(0, .7), 1.]), r.uniform(2, 8)))
        d = g.nrm(g.sub(tgt, o))
        s0, s1 = r.getrandbits(40), r.getrandbits(40)
        got = []
        for f, sc, it, sm, ren in worlds:
            x = R.Smp(.3)
            x.n1D, x.n2D = list(sm.n1D), list(sm.n2D)
            x.fill(random.Random(s0))
            rng = R.Rng(s1)
            v = ren.li(sc, ray(o, d, 0., math.inf, f, .3, [[.01, 0, 0], [0, .01, 0], [0, 0, 0], [0, .01, 0]]), x, Intersection(), rng)
            got.append(([y / (1. if f == 1. else bright) for y in B.vals(v[0])], B.vals(v[1]) if len(v) > 1 else [], rng.n))
        c.event("radiance." + kind)
        if max(got[0][0]) > 0:
            c.event("lit")
        alike(c, list(got[0][0]) + list(got[0][1]) + [got[0][2]], list(got[1][0]) + list(got[1][1]) + [got[1][2]], "radiance",
              "radiance depends on the unit of length or light", tol=1e-6, ray=[o, d], seeds=[s0, s1])
