"""P43 transport is linear in the lights and independent of frame and structure"""
import os
import math
import random
import shutil
import tempfile
import contextlib
from core import tasklist
import gen as g
import shapes as S
import lights as LT
import render as R
import numpy as np
import pytracer.geometry as geo
import pytracer.light as L
from pytracer.transform import Transform, AnimatedTransform
from pytracer.shape import create_triangle_mesh
from pytracer.aggregate import GeometricPrimitive, TransformedPrimitive, SimpleAggregate, GridAccel, BVH, Intersection
from pytracer.material import MatteMaterial, PlasticMaterial, MixMaterial, UberMaterial, MirrorMaterial, MetalMaterial, GlassMaterial
from checks import p27

TASKS, task = tasklist()
RULE = ("small scenes of shapes with every smooth and specular material lit by every kind of light, traced by all integrators with a replayed generator; each scene is rebuilt with "
        "scaled, split, reordered or added lights, moved, mirrored or resized as a whole, with its primitives reordered, divided, instanced and held in other accelerators, or seen at "
        "another time; distinct by scene and ray")
ASSUMPTIONS = ["a discrepancy counts when slightly displaced rays show it, too: a single ray may pass exactly at an edge",
               "area lights are not spheres when frames change: their sampling frame is not tied to the shape",
               "resized area lights are triangles: the library's other shapes do not account for scaled placements in their areas"]
BRIGHT = 1e6


class K(object):
    """a texture bound to the surface parameters only"""

    def __init__(self, cs):
        self.cs = cs

    def __call__(self, dg):
        k = .7 + .3 * math.sin(3 * float(dg.u) + 5 * float(dg.v))
        return LT.spec([c * k for c in self.cs]) if isinstance(self.cs, list) else self.cs


def mat(r, depth=0):
    c = lambda: K([r.choice([0., r.random(), r.random()]) for _ in range(3)])
    x = lambda *a: K(r.choice(list(a)))
    k = r.randrange(8 if depth < 2 else 7)
    if k < 2:
        return MatteMaterial(c(), x(0., 30.), None)
    if k == 2:
        return PlasticMaterial(c(), c(), x(.05, .3), None)
    if k == 3:
        return MirrorMaterial(c(), None)
    if k == 4:
        return GlassMaterial(c(), c(), x(1.5, 1.2, .8), None)
    if k == 5:
        return MetalMaterial(K([1.5, .8, .4]), K([3., 2., 1.]), x(.1, .4), None)
    if k == 6:
        return UberMaterial(c(), c(), c(), c(), x(.1, .3), K([1., 1., 1.]) if r.random() < .5 else c(), x(1.5, 1.2), None)
    return MixMaterial(mat(r, depth + 1), mat(r, depth + 1), c())


LIGHTS = ["point", "spot", "distant", "gonio", "projection", "infinite"]


class World(object):
    """a recipe: shapes, materials, lights"""

    def __init__(self, r, folder, lamps=("disk", "cylinder", "triangle"), env=True, room=False, mat=mat, kinds=None, n=None):
        self.items, self.lamps = [], []
        if room:    # a bright room around everything: long paths
            k = r.uniform(.75, .95)
            self.items.append(("sphere", Transform(), g.ident(), True, dict(r=40., z0=-40., z1=40., pm=360.), MatteMaterial(K([k] * 3), K(0.), None), None))
        for _ in range(r.randrange(2, 6)):
            k = r.choice(S.KINDS)
            T, M, _ = g.rigid(r)
            lamp = None
            if k in lamps and r.random() < .3:
                lamp = LT.colour(r)
            prm = S.rand_prm(r, k)
            if k == "triangle":
                prm['P'] = [g.mul(p, 2.) for p in prm['P']]
                prm.setdefault('uv', [(0., 0.), (1., 0.), (1., 1.)])
            self.items.append((k, T, M, r.random() < .4, prm, mat(r), lamp))
        n = n or r.randrange(1, 4)
        for _ in range(n):
            k = r.choice(kinds or (LIGHTS if env else LIGHTS[:-1]))
            T, M, _ = g.rigid(r)
            prm = dict(I=LT.colour(r), w=r.uniform(30, 90), d=g.unit(r), img=None)
            prm['f'] = prm['w'] * r.uniform(.1, .9)
            if k in ("gonio", "projection", "infinite") and r.random() < .8:
                a, _ = LT.image(r)
                prm['img'] = LT.save(a, folder, "l%d.png" % r.getrandbits(40))
            self.lamps.append((k, T, M, prm))
        self.desc = [x[0] for x in self.items], [x[5].__class__.__name__ for x in self.items], [x[6] is not None for x in self.items], [x[0] for x in self.lamps]
        self.keys = [("a", i) for i, x in enumerate(self.items) if x[6] is not None] + [("l", i) for i in range(n)]

    def build(self, G=None, GM=None, s=1., factor=None, lights=None, order=None, kind="simple", wrap=None, split=(), clone=None):
        """the scene; factor: light key -> colour factor; lights: keys present, in order"""
        G, GM = G or Transform(), GM or g.ident()
        keys = list(self.keys if lights is None else lights)
        fac = factor or (lambda k: [1.] * 3)
        built = {}
        prims = []
        for i, (k, T, M, ro, prm, m, lamp) in enumerate(self.items):
            T2, M2 = G * T, g.mm(GM, M)
            W = None
            if wrap is not None and lamp is None and wrap[i] is not None:
                W, WM = wrap[i]
                T2, M2 = W * T2, g.mm(WM, M2)
            if k == "triangle" and i in split and lamp is None:
                P, uv = prm['P'], prm['uv']
                mid = lambda a, b: [(x + y) * .5 for x, y in zip(a, b)]
                P = list(P) + [mid(P[0], P[1]), mid(P[1], P[2]), mid(P[2], P[0])]
                uv = list(uv) + [mid(uv[0], uv[1]), mid(uv[1], uv[2]), mid(uv[2], uv[0])]
                mesh = create_triangle_mesh(T2, T2.inverse(), ro, {'indices': [0, 3, 5, 3, 1, 4, 5, 4, 2, 3, 4, 5], 'P': [g.P(p) for p in P],
                                                                    'uv': [x for q in uv for x in q]})
                shs = list(mesh.refine())
            else:
                shs = [S.Ref(k, T2, M2, "", ro, prm).shape]
            for sh in shs:
                light = None
                key = ("a", i)
                if lamp is not None and key in keys:
                    light = L.DiffuseAreaLight(T2, LT.spec([BRIGHT * a * b for a, b in zip(lamp, fac(key))]), 1, sh)
                    built[key] = light
                p = GeometricPrimitive(sh, m, light)
                if W is not None:
                    p = TransformedPrimitive(p, AnimatedTransform(W, 0., W, 1.))
                prims.append(p)
        for i, (k, T, M, prm) in enumerate(self.lamps):
            key = ("l", i)
            if key not in keys:
                continue
            T2 = G * T
            if k == "infinite" and s != 1.:
                # an environment has no size: its frame is not resized
                T2 = G * Transform.scale(1. / s, 1. / s, 1. / s) * T
            q = s * s if k in ("point", "spot", "gonio", "projection") else 1.
            I = LT.spec([BRIGHT * q * a * b for a, b in zip(prm['I'], fac(key))])
            if k == "point":
                x = L.PointLight(T2, I)
            elif k == "spot":
                x = L.SpotLight(T2, I, prm['w'], prm['f'])
            elif k == "distant":
                x = L.DistantLight(T2, I, g.V(prm['d']))
            elif k == "gonio":
                x = L.GonioPhotometricLight(T2, I, prm['img'] or "none.png")
            elif k == "projection":
                x = L.ProjectionLight(T2, I, prm['img'] or "none.png", prm['w'])
            else:
                x = L.InfiniteAreaLight(T2, I, 1, prm['img']) if prm['img'] else L.InfiniteAreaLight(T2, I, 1)
            built[key] = x
        if order is not None:
            prims = [prims[j % len(prims)] for j in order if j < len(prims)] + prims[len(order):]
        a = SimpleAggregate(prims, True) if kind == "simple" else GridAccel(prims, True) if kind == "grid" else BVH(prims)
        sc = R.Sc(a, [built[k] for k in keys])
        sc.keys = keys
        return sc

    def ray(self, r):
        k, T, M, ro, prm = r.choice(self.items)[:5]
        ref = S.Ref(k, T, M, "", ro, prm)
        tgt = ref.world(*ref.rand_uv(r))
        o = g.add(tgt, g.mul(g.unit(r), r.uniform(2., 12.)))
        return o, g.nrm(g.sub(tgt, o))


@contextlib.contextmanager
def folder():
    d = tempfile.mkdtemp(prefix="p43-")
    try:
        with contextlib.redirect_stdout(open(os.devnull, "w")):
            yield d
    finally:
        shutil.rmtree(d)


def trace(sc, kind, depth, o, d, seed, time=0., constant=False):
    """radiance along the ray; random numbers follow the light, not its place in the list"""
    it = p27.integ(kind, depth)
    sm = R.Smp(time)
    it.request_samples(None, sm, sc)
    sm.fill(random.Random(seed))
    if kind == "direct-all":
        for key, lo, bo in zip(sc.keys, it.light_sample_offsets, it.bsdf_sample_offsets):
            q = random.Random(repr((seed, key)))
            for off in (lo, bo):
                sm.oneD[off.offset_com][:] = q.random()
                sm.twoD[off.offset_pos if hasattr(off, "offset_pos") else off.offset_dir][:] = q.random()
    rng = (lambda *a: .37) if constant else R.Rng(seed)
    ray = geo.RayDifferential(g.P(o), g.V(d), 0., math.inf, 0, time)
    v, _ = R.Ren(it).li(sc, ray, sm, Intersection(), rng)
    return LT.rgb(v)


def near(a, b, rel=1e-6, tol=1.):
    m = max(max(abs(x) for x in a), max(abs(x) for x in b))
    return all(abs(x - y) <= rel * m + tol for x, y in zip(a, b))


class Judge(object):
    """compares the two radiances fn(o, v) gives; a discrepancy must survive small displacements of the ray"""

    def __init__(self, c):
        self.c = c

    def see(self, mech, msg, fn, o, v, near=near, **wit):
        got, want = fn(o, v)
        ok = near(got, want) and all(math.isfinite(x) for x in got + want)
        if not ok:
            q = random.Random(repr(o))
            for _ in range(2):
                a, b = fn(o, g.nrm(g.add(v, g.mul(g.gunit(q), 1e-6))))
                if near(a, b):
                    self.c.event("edge:" + mech)
                    ok = True
        if max(want) > 0.:
            self.c.event("lit:" + mech)
        self.c.check(ok, mech, msg, got=got, want=want, ray=[o, v], **wit)


RAYS = 4


@task(quick=130, thorough=3000, min_events=700)
def linear(c):
    """scaled, split, reordered and added lights"""
    r = c.rng
    with folder() as d:
        env = r.random() < .6
        kind, depth = r.choice(p27.KINDS), r.randrange(1, 5)
        room = kind == "path" and r.random() < .6
        if room:
            depth = r.choice([8, 14])
        w = World(r, d, lamps=S.KINDS, env=env, room=room)
        rays = [w.ray(r) for _ in range(RAYS * 3 if room else RAYS)]
        c.note(shapes=w.desc[0], materials=w.desc[1], lamps=w.desc[2], lights=w.desc[3], integrator=kind, depth=depth)
        c.sig(w.desc, rays[0])
        J = Judge(c)
        base = w.build()
        k = r.choice([.5, 2., 3., 10.])
        ks = [k] * 3 if env else [r.uniform(.3, 3.) for _ in range(3)]
        sc2 = w.build(factor=lambda key: ks)
        for o, v in rays:
            seed = r.getrandbits(40)
            J.see("scale", "brightening every light by a factor does not scale the radiance by it",
                  lambda o, v: (trace(sc2, kind, depth, o, v, seed), [x * q for x, q in zip(trace(base, kind, depth, o, v, seed), ks)]), o, v, factor=ks)
        dim = 10. ** r.uniform(-15, -3)
        sc3 = w.build(factor=lambda key: [dim] * 3)
        for o, v in rays:
            seed = r.getrandbits(40)
            J.see("dim", "radiance under dim lights is not the same fraction of the radiance under bright ones",
                  lambda o, v: (trace(sc3, kind, depth, o, v, seed), [x * dim for x in trace(base, kind, depth, o, v, seed)]), o, v, dim=dim)
        if kind in ("whitted", "direct-all"):
            keys = list(w.keys)
            r.shuffle(keys)
            cut = r.randrange(0, len(keys) + 1)
            parts = [w.build(lights=keys[:cut]), w.build(lights=keys[cut:])]
            perm = w.build(lights=keys)
            extra = r.choice(keys)
            for o, v in rays:
                seed = r.getrandbits(40)
                tr = lambda sc, o, v: trace(sc, kind, depth, o, v, seed, constant=True)
                J.see("superpose", "radiance under two groups of lights is not the sum of the radiances under each",
                      lambda o, v: (tr(base, o, v), g.add(tr(parts[0], o, v), tr(parts[1], o, v))), o, v, groups=[keys[:cut], keys[cut:]])
                J.see("light-order", "radiance depends on the order of the lights", lambda o, v: (tr(perm, o, v), tr(base, o, v)), o, v)
                dark = w.build(factor=lambda key: [0.] * 3 if key == extra else [1.] * 3)
                gone = w.build(lights=[x for x in w.keys if x != extra])
                J.see("dark-light", "a light that emits nothing changes the radiance", lambda o, v: (tr(dark, o, v), tr(gone, o, v)), o, v, light=extra)


def shiny(r):
    c = K([r.uniform(.3, 1.) for _ in range(3)])
    return MirrorMaterial(c, None) if r.random() < .5 else GlassMaterial(c, K([r.uniform(.3, 1.) for _ in range(3)]), K(r.choice([1.5, 1.2, .8])), None)


@task(quick=90, thorough=2500, min_events=350)
def specular(c):
    """between mirrors and glass every integrator sees every light: sums over any grouping, in any order"""
    r = c.rng
    with folder() as d:
        kind, depth = r.choice(p27.KINDS), r.randrange(1, 6)
        w = World(r, d, lamps=S.KINDS, mat=shiny, kinds=["infinite", "infinite", "infinite", "point", "distant"], n=r.randrange(2, 5))
        rays = [w.ray(r) for _ in range(RAYS)]
        c.note(shapes=w.desc[0], materials=w.desc[1], lamps=w.desc[2], lights=w.desc[3], integrator=kind, depth=depth)
        c.sig(w.desc, rays[0])
        J = Judge(c)
        base = w.build()
        keys = list(w.keys)
        r.shuffle(keys)
        cut = r.randrange(1, len(keys))
        parts = [w.build(lights=keys[:cut]), w.build(lights=keys[cut:])]
        perm = w.build(lights=keys)
        for o, v in rays:
            seed = r.getrandbits(40)
            tr = lambda sc, o, v: trace(sc, kind, depth, o, v, seed, constant=True)
            J.see("superpose", "radiance through mirrors and glass under two groups of lights is not the sum of the radiances under each",
                  lambda o, v: (tr(base, o, v), g.add(tr(parts[0], o, v), tr(parts[1], o, v))), o, v, groups=[keys[:cut], keys[cut:]])
            J.see("light-order", "radiance through mirrors and glass depends on the order of the lights", lambda o, v: (tr(perm, o, v), tr(base, o, v)), o, v)


@task(quick=170, thorough=4000, min_events=400)
def frames(c):
    """the whole world moved, mirrored or resized"""
    r = c.rng
    with folder() as d:
        how = r.choice(["moved", "moved", "mirrored", "resized"])
        w = World(r, d, ("triangle",)) if how == "resized" else World(r, d)
        rays = [w.ray(r) for _ in range(RAYS)]
        kind = "whitted" if how == "mirrored" else r.choice(p27.KINDS)
        depth = r.randrange(1, 5)
        T, M, desc = g.rigid(r)
        s = 1.
        if how == "mirrored":
            f = [1., 1., 1.]
            f[r.randrange(3)] = -1.
            T, M = T * Transform.scale(*f), g.mm(M, g.m_scale(f))
        elif how == "resized":
            s = r.choice([.25, .5, 2., 4.])
            T, M = T * Transform.scale(s, s, s), g.mm(M, g.m_scale([s] * 3))
        c.note(shapes=w.desc[0], materials=w.desc[1], lamps=w.desc[2], lights=w.desc[3], integrator=kind, depth=depth, how=how, by=desc, s=s)
        c.sig(w.desc, rays[0], how)
        base, other = w.build(), w.build(T, M, s)
        J = Judge(c)
        for o, v in rays:
            seed = r.getrandbits(40)
            J.see(how, "the same world, %s as a whole, looks different" % how,
                  lambda o, v: (trace(other, kind, depth, g.m_pt(M, o), g.nrm(g.m_vec(M, v)), seed), trace(base, kind, depth, o, v, seed)), o, v)


@task(quick=150, thorough=3500, min_events=1800)
def structure(c):
    """reordered, divided, instanced and accelerated primitives; another time"""
    r = c.rng
    with folder() as d:
        w = World(r, d, lamps=S.KINDS)
        rays = [w.ray(r) for _ in range(RAYS)]
        kind, depth = r.choice(p27.KINDS), r.randrange(1, 5)
        c.note(shapes=w.desc[0], materials=w.desc[1], lamps=w.desc[2], lights=w.desc[3], integrator=kind, depth=depth)
        c.sig(w.desc, rays[0])
        base = w.build()
        order = list(range(len(w.items)))
        r.shuffle(order)
        wrap = []
        for _ in w.items:
            A, AM, _ = g.rigid(r)
            wrap.append((A, AM) if r.random() < .7 else None)
        tris = [i for i, x in enumerate(w.items) if x[0] == "triangle"]
        t = r.random()
        others = [("reordered", w.build(order=order, kind=r.choice(["simple", "bvh", "grid"])), 0., "depends on the order of the primitives"),
                  ("grid", w.build(kind="grid"), 0., "depends on the accelerator"), ("bvh", w.build(kind="bvh"), 0., "depends on the accelerator"),
                  ("instanced", w.build(wrap=wrap), r.choice([0., t]), "changes when shapes are placed through instances"), ("time", base, t, "of a still world depends on the time")]
        if any(w.items[i][6] is None for i in tris):
            others.append(("divided", w.build(split=tris), 0., "changes when a triangle is divided into four"))
        J = Judge(c)
        for o, v in rays:
            seed = r.getrandbits(40)
            memo = {}

            def plain(o, v):
                k = repr((o, v))
                if k not in memo:
                    memo[k] = trace(base, kind, depth, o, v, seed)
                return memo[k]
            for mech, sc, tm, msg in others:
                J.see(mech, "radiance " + msg, lambda o, v: (trace(sc, kind, depth, o, v, seed, tm), plain(o, v)), o, v)
